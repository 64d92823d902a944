import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
SDF='SeismicMesh/geometry/signed_distance_functions.py'
GU='SeismicMesh/geometry/utils.py'
FG='SeismicMesh/geometry/cpp/fast_geometry.cpp'
MG='SeismicMesh/generation/mesh_generator.py'
MU='SeismicMesh/generation/utils.py'
SZ='SeismicMesh/sizing/mesh_size_function.py'
HJ='SeismicMesh/sizing/cpp/FastHJ.cpp'
MI='SeismicMesh/migration/migration.py'
CU='SeismicMesh/migration/cpp/cpputils.cpp'
DL='SeismicMesh/generation/cpp/delaunay.cpp'
BL='SeismicMesh/decomp/blocker.py'
p('C01','Primitive shapes return a correct signed distance at every point',
 'For every primitive shape (disk, ball, rectangle, cuboid, torus, prism, cylinder) with valid parameters and every query point, the returned value is negative exactly in the interior, zero exactly on the boundary and positive exactly outside. For disks, balls, tori and cylinders the value is the true distance to the surface as defined by the shape\'s parameters; for rectangles and cuboids it is minus the smallest distance to the supporting faces. Every query point of a batch gets its own answer, in order, whatever the batch size.',
 ['inputs'],'all shape parameters, all real query points, all batch sizes including zero and one',
 'Tests mesh a few shapes and compare vertex counts within 100, so they sample a handful of parameters and never look at the returned distances point by point.',
 [SDF,FG],[('closed-form distance per primitive',SDF+': class *.eval, _ddisk, dball'),('compiled box distances',FG+': c_drectangle, c_dblock and their array wrappers')],
 observe=['eval() of a shape object'])
p('C02','Rotating, stretching and translating a shape moves exactly its point set',
 'A shape built with a stretch, then rotations about the axes, then a translation has at the image of any point under that map exactly the value the untransformed shape has at the point itself. Building or evaluating a shape changes neither the transformation vectors, the parameters nor the query points the caller passed in.',
 ['inputs'],'all shapes, all rotation angles on every axis, all non-zero stretch vectors, all translations and any combination, all query points',
 'Two tests rotate single shapes by one or a few angles about one axis and look at mesh sizes; combinations, signs and order of the maps are never compared with a reference.',
 [SDF],[('inverse map applied before evaluation',SDF+': _manipulate, _scale_back, _rotate_back, _translate_back'),('construction of rotation and stretch data',SDF+': _build_stretch, _build_rotation, _build_translation')],
 state=[('transformation data','inverse rotations, unit stretch direction and factor, translation',SDF+': shape attributes')])
p('C03','The bounding box of a shape contains the whole shape',
 'Every point at which a shape (a primitive under any stretch, rotation and translation, or a union, intersection or difference) is non-positive lies inside the bounding box the shape reports. Since initial vertices are only placed in that box, nothing of the domain is left unmeshed.',
 ['inputs'],'all shape parameters and transformation values, all points, any number of combined shapes',
 'Tests use one axis at a time and check element counts; no test evaluates a shape outside the box it reports.',
 [SDF],[('box of primitives',SDF+': __init__ of the shapes'),('box after stretch, rotation, translation',SDF+': _build_*'),('box of combinations',SDF+': Union, Intersection, Difference __init__')],
 state=[('bbox','axis-aligned extents of the shape',SDF+': .bbox')])
p('C04','Combined shapes implement set algebra for any number of operands',
 'Without smoothing, a point is inside a union iff it is inside some operand, inside an intersection iff inside all, and inside a difference iff inside the first and outside all others, with the value being the minimum or maximum of the (negated) operand values. With smoothing k>0 of two operands, a union never exceeds the sharp value and undershoots it by at most k/4, an intersection or difference never undershoots the sharp value and exceeds it by at most k/4, and beyond the blending width k they coincide; a periodic repetition evaluates the base shape at the point wrapped into the base cell, clipped to the enclosing box.',
 ['inputs'],'all operand values, all numbers of operands (at least one; at least two when smoothed), all k>=0, all points',
 'Tests evaluate a few two-operand combinations and only count the resulting cells.',
 [SDF],[('reduction over operands',SDF+': Union/Intersection/Difference.eval, _loop_call'),('smooth blending',SDF+': _smooth_union, _smooth_intersection, _smooth_difference'),('repetition',SDF+': Repeat.eval')])
p('C05','Edge, facet and boundary queries return exactly the right sets',
 'For every simplex mesh whose elements have distinct vertices the edge list holds each element\'s vertex pairs, and the facet list each tetrahedron\'s vertex triples, exactly once per element; the unique edge list holds every undirected edge exactly once. Boundary edges of a triangle mesh are exactly the edges used by one triangle, boundary facets of a tetrahedral mesh exactly those used by one tetrahedron, and boundary vertices are exactly the vertices of these, each once.',
 ['inputs'],'all connectivity tables of triangles and tetrahedra with any vertex order, any numbering (gaps included) and any size; triangle meshes need not be manifold',
 'Tests check the counts for one or two generated meshes; wrong sets with the right count, and non-manifold or permuted inputs, are not covered.',
 [GU,FG,MG],[('edge and facet tables',GU+': get_edges, get_facets; '+MG+': _get_edges'),('row counting',GU+': unique_row_view, get_boundary_edges, get_boundary_facets, get_boundary_vertices'),('compiled unique edges',FG+': unique_edges, vectorSortIntArr')])
p('C06','The vertex-to-element table lists exactly the elements around each vertex',
 'For every mesh whose elements have distinct vertices and every vertex, the slice of the adjacency table that belongs to the vertex lists exactly the elements that contain it, once each, and is empty for a vertex no element uses. The boundary elements reported for a mesh are exactly the elements containing a boundary vertex, once each.',
 ['inputs'],'all connectivity tables in 2D and 3D, including meshes with unused vertices and a single element',
 'One test compares one small mesh without unused vertices.',
 [GU],[('sorted incidence table and pointers',GU+': vertex_to_entities'),('boundary elements',GU+': get_boundary_entities')],
 state=[('vtoe, vtoe_pointer','incidence list in compressed rows',GU+': vertex_to_entities')])
p('C07','Mesh cleanup keeps the geometry and leaves a canonical mesh',
 'After cleanup of a mesh with a positive extent every element index is valid, no two vertices coincide, no two elements have the same vertices, with orientation fixing every element has non-negative signed volume, and with removal of unused vertices every vertex belongs to an element. Every element kept has, up to snapping within the tolerance, the vertex coordinates of an input element and every input element is represented; the arrays of the caller are not modified.',
 ['inputs'],'all 2D and 3D point sets and connectivity tables, with any mixture of duplicate vertices (also -0.0 against 0.0), duplicate elements, inverted elements and unused vertices, any option combination',
 'Tests run cleanup on meshes that are already almost clean.',
 [GU],[('duplicate vertices',GU+': fix_mesh, unique_rows'),('duplicate elements',GU+': unique_row_view'),('orientation',GU+': simp_vol, fix_mesh')])
p('C08','Volumes, centroids, quality, determinants and radius ratios are exact',
 'For every mesh the signed volume of each element is the determinant formula of its own vertices (sign given by orientation, magnitude by the factorial), the centroid is the mean of its vertices, and the 3x3 and 4x4 determinants equal the Leibniz expansion. The quality of a non-degenerate triangle lies in [0,1], is invariant under vertex order, and equals twice the inradius over the circumradius; the radius-edge ratio of each triangle or tetrahedron is its own circumradius over its own shortest edge.',
 ['inputs'],'all real coordinates of non-degenerate elements, all connectivity tables of any size, all matrices',
 'Tests compare sums or extremes for one mesh; per-element mix-ups, sign patterns and size-dependent errors (as in the two-dimensional circumball wrapper) go unseen.',
 [GU,FG,DL],[('volume, quality, centroid',GU+': simp_vol, simp_qual, get_centroids'),('radius-edge ratio',GU+': calc_re_ratios; '+DL+': circumballs2/3'),('determinants',FG+': c_calc_3x3determinant, c_calc_4x4determinant')])
p('C09','Tetrahedron angles and gradients are exact for every element',
 'For every tetrahedron the six dihedral angles reported are the true angles between its faces, in a fixed order with six consecutive entries per element, and always lie in [0, pi], flat elements included. The volume gradient and the circumsphere gradient reported for a batch of tetrahedra are, per tetrahedron, minus the derivative of the signed volume and the derivative of the squared circumradius with respect to the first vertex, as used to remove slivers.',
 ['inputs'],'all real vertex coordinates (angles: also exactly flat tetrahedra with distinct, non-collinear faces), all batch sizes',
 'Tests look at the minimum angle of one mesh; individual angles, element order, flat elements and the gradients have no oracle.',
 [FG],[('dihedral angles',FG+': c_calc_dihedral_angles, calc_dihedral_angles'),('gradients',FG+': c_calc_volume_grad, c_calc_circumsphere_grad')])
p('C10','Point location and overlap detection are exact',
 'A point is reported inside a triangle exactly when all its barycentric coordinates lie in [0,1], and inside a tetrahedron exactly when all are positive, for either orientation and any vertex order. Overlap detection reports an ordered pair of elements exactly when they share a vertex and the centroid of the first lies in the second, and reports nothing for a valid mesh.',
 ['inputs'],'all real points and non-degenerate elements, all meshes including ones with unused vertices',
 'Tests use two or three points and one mesh with a known overlap.',
 [GU,FG],[('point location',GU+': vertex_in_entity2, vertex_in_entity3'),('neighbourhood scan',GU+': do_any_overlap'),('determinant sign',FG+': c_calc_4x4determinant')])
p('C11','Smoothing moves only free interior vertices',
 'Iterated Laplacian smoothing never moves a boundary vertex or the vertex nearest to a requested fixed point, never changes connectivity, and each step puts every other vertex at the average of its neighbours. The direct (fixed-point) variant returns, to the tolerance of the linear solver, the solution in which boundary vertices keep their coordinates and each interior vertex is the average of its neighbours.',
 ['inputs'],'all valid triangle meshes, all iteration counts and tolerances, any set of fixed points',
 'Tests check the result of smoothing on one mesh through a single aggregate.',
 [GU],[('iterated smoothing',GU+': laplacian2'),('direct smoothing',GU+': laplacian2_fixed_point')])
p('C12','The size function honours every requested bound',
 'Before gradation limiting and padding, at every grid point the mesh size is the smaller of the wavelength criterion (velocity over frequency times cells) and the velocity-gradient criterion that were requested, clipped to the minimum and maximum edge length, and then raised where needed so that the Courant number for the requested timestep, order and dimension never exceeds its cap. When nothing is requested it is the minimum edge length everywhere, disabled criteria have no effect, and invalid parameters are rejected.',
 ['inputs','configurations'],'all positive velocity fields in 2D and 3D, all option combinations and values',
 'Tests build sizing functions for one or two models and evaluate them at few points or integrate them.',
 [SZ],[('criteria',SZ+': _wavelength_sizing, _gradient_sizing'),('bounds',SZ+': get_sizing_function_from_segy'),('timestep',SZ+': _enforce_courant_sizing')])
p('C13','Gradation limiting bounds the size change between neighbours',
 'For any positive size field on a 2D or 3D grid the limited field never exceeds the input and never falls below the global minimum of the input, and once the sweep has converged any two axis-neighbouring grid points differ by at most spacing times gradation rate plus the stated tolerance; the limited field is nowhere lower than the largest field below the input with that property. A field that already satisfies the bound is returned unchanged, values and layout.',
 ['inputs'],'all grid shapes, all positive fields, all spacings and positive rates',
 'One test compares the gradient of a single field, where an error confined to one direction, to boundary cells or to late sweeps does not show.',
 [HJ,SZ],[('active-set sweep',HJ+': c_limgrad, sub2ind, ind2sub, findIndices'),('layout conversion',SZ+': _enforce_gradation_sizing')],
 state=[('aset','the sweep in which a node last changed',HJ+': c_limgrad')])
p('C14','Domain padding extends the grids and the box on the right sides only',
 'Padding by a width extends the box by that width on the low side of the first axis and on both sides of every other axis and never on the high side of the first axis; velocity and size grids grow consistently by the whole number of cells fitting in the width, and the unpadded values stay unchanged in the interior. Edge padding repeats the nearest value, constant padding uses the field maximum, ramp padding stays between the nearest value and the maximum, and a negative width or unknown style is rejected.',
 ['inputs','configurations'],'all grid shapes, boxes, widths and styles in 2D and 3D',
 'Tests pad one model and compare the bounding box.',
 [SZ],[('padding',SZ+': _build_domain_pad, _pad_it, _get_dimensions')])
p('C15','Velocity models are read, converted and interpolated without distortion',
 'A binary model written in any axis order, memory order, byte order and precision is read back with its physical axes as (z, x, y) and the depth axis flipped, every sample kept. Unit conversion scales every sample by the same factor, water positions (zero velocity) all receive the requested water velocity, an array passed by the caller is left unmodified, and the interpolant reproduces the grid values at the grid points of the box.',
 ['inputs','configurations'],'all grid sizes, all permutations of axes, both sort orders, both byte orders and precisions, all positions of water samples',
 'Tests read one model with one layout; the other permutations and the position of water samples are not exercised.',
 [SZ,'SeismicMesh/sizing/size_function.py'],[('readers',SZ+': _read_bin, _read_segy'),('units and water',SZ+': get_sizing_function_from_segy'),('interpolant',SZ+': _build_sizing_function, _get_vectors')])
p('C16','Mesh generation stops after exactly the requested iterations',
 'For every positive integer iteration limit, mesh generation and sliver removal terminate after at most that many triangulations, generation after exactly that many, and return a mesh. A non-positive limit, a non-positive minimum edge length, an unknown option or an invalid domain or size argument is rejected with an error instead of looping or being ignored.',
 ['inputs','configurations'],'all iteration limits, all option dictionaries, all domains and size functions, any intermediate mesh',
 'Tests use a few limits between 5 and 100; limits of zero hang and would never return from a test.',
 [MG],[('iteration counter',MG+': generate_mesh, sliver_removal loops'),('validation',MG+': _parse_kwargs, _unpack_domain, _unpack_sizing, _check_bbox')])
p('C17','Bar forces balance, only repel, and never move fixed points',
 'In every meshing iteration the forces on all vertices sum to zero, each bar pushes its two end points apart along the bar with a magnitude equal to how far the bar is shorter than its desired length (longer bars exert none), and a vertex\'s force is the sum over its distinct bars. Vertices nearest to user-fixed points receive no displacement from forces.',
 ['inputs'],'all vertex positions, all connectivity tables, all positive size functions, any fixed points, every iteration',
 'Tests only see the final mesh counts, which tolerate a wrong or unbalanced force law.',
 [MG,MU,FG],[('forces',MG+': _compute_forces, _get_edges; '+MU+': dense'),('fixed points',MG+': generate_mesh, _closest_node')])
p('C18','Generated meshes contain only elements inside the domain',
 'Every element of a mesh returned by serial mesh generation has its centroid strictly inside the domain by the final tolerance, and every element inside by that tolerance in the last triangulation step is retained by the filter. Projection onto the boundary moves only vertices that lie outside the domain (for an immersed subdomain: outside it by less than two thirds of the minimum size) and leaves all others untouched.',
 ['inputs','configurations'],'all signed distance functions, all point sets and connectivity tables, all tolerances, any number of iterations',
 'Tests check volumes and counts of a few shapes with wide tolerances.',
 [MG],[('element filter',MG+': _remove_triangles_outside'),('projection',MG+': _project_points_back_newton, _improve_level_set_newton'),('final step',MG+': generate_mesh, _termination')])
p('C19','Halo exchange sends each neighbour exactly the vertices it needs, once',
 'For any number of ranks, each rank sends exactly one message to each existing neighbour and receives exactly one from each, in an order that cannot deadlock even with blocking sends and whatever the number of points to send, and the ghost vertices a rank receives are exactly those its neighbours marked for it, from above first. The export table of a rank lists first the points marked for the rank below and then those for the rank above, each exactly once with its coordinates and index and with correct counts, and ghosts, and only ghosts, are removed after each iteration.',
 ['inputs','schedules','configurations'],'all rank counts and ranks, all partitions and point sets, also ranks with nothing to send, all message timings',
 'Parallel tests run on two ranks with non-empty exchanges only.',
 [MI,CU,MG],[('neighbour boxes',MI+': enqueue'),('export table',CU+': c_where_to2, c_where_to3, build_vtoe2/3'),('message pattern',MI+': exchange'),('ghost removal',MG+': _add_ghost_vertices, generate_mesh')])
p('C20','Splitting and gathering across ranks loses and renumbers nothing',
 'Gathering the local meshes onto the root concatenates all vertices in rank order and shifts every rank\'s element indices by exactly the number of vertices of the ranks before it, so each gathered element has the coordinates it had locally. Splitting points into blocks puts every point in at least one block, no point in a block whose slab does not contain it, reports exact extents, and each rank receives its own block.',
 ['inputs','configurations'],'any number of ranks, any local meshes, any point sets, every supported axis',
 'Parallel tests use two ranks, for which a wrong cumulative offset (needed from the third rank on) is invisible.',
 [MI,BL],[('gather',MI+': aggregate'),('split',BL+': blocker; '+MI+': localize_points')])
p('C21','Sliver removal reports success only when all angles are in bounds',
 'If sliver removal ends before its iteration limit, every dihedral angle of every element in the returned mesh lies within the requested bounds, flat elements included. Every element with some angle outside the bounds is found in each iteration, no other element is perturbed, and perturbation moves only a vertex of such an element.',
 ['inputs','configurations'],'all tetrahedral meshes, all angle bounds, all step options',
 'Tests check the minimum angle of a few meshes after success.',
 [MG,FG],[('sliver detection',MG+': _calc_dihedral_angles'),('loop exit',MG+': sliver_removal')])
p('C22','Initial vertices cover the box and are selected by the size function',
 'The initial lattice covers the given box in every direction with spacing h0 and alternate rows offset by half a spacing; only lattice points inside the domain by the tolerance are kept, each is retained with probability given by the ratio of the smallest size to the local size, and fixed points always come first. The same seed and arguments give the same points.',
 ['inputs','configurations'],'all boxes, spacings, seeds, domains and size functions, in 2D and 3D',
 'Tests see only final counts within 100 of a reference.',
 [MG,MU],[('lattice',MU+': create_staggered_grid, make_init_points'),('rejection',MG+': _generate_initial_points')])
p('C23','Deleting poor elements deletes only poor elements',
 'Boundary clean-up deletes exactly the elements that touch the boundary and whose quality is below the threshold, and keeps every other element. Removal of elements outside a rank\'s extents drops exactly the elements all of whose vertices lie outside; linting deletes, of each overlapping pair, the element of lower quality.',
 ['inputs','configurations'],'all meshes, thresholds and extents in 2D and 3D',
 'Tests check the count of elements for one or two meshes.',
 [GU,FG],[('boundary clean-up',GU+': delete_boundary_entities, linter'),('external elements',GU+': remove_external_entities; '+FG+': c_remove_external_entities2/3')])
p('C24','Triangulation objects expose consistent vertex and cell tables',
 'After any sequence of insertions, moves and removals followed by reading the vertices and then the cells, every cell index refers to the row of the vertex table holding that vertex, the cells have positive orientation and empty circumcircles or circumspheres, every distinct inserted point appears exactly once at its current position, and the cells cover the convex hull. One-shot triangulation of coordinate arrays gives indices into these arrays with the same guarantees.',
 ['inputs','histories'],'all point sets in general position, all sequences of operations',
 'Tests insert and move once and compare counts.',
 ['SeismicMesh/generation/cpp/delaunay_class.cpp','SeismicMesh/generation/cpp/delaunay_class3.cpp',DL],[('incremental tables','SeismicMesh/generation/cpp/delaunay_class*.cpp: insert, move, remove, get_finite_vertices, get_finite_cells'),('one-shot triangulation',DL+': c_delaunay2, c_delaunay3')])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
print(len(P))
