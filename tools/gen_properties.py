#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))

prop('C01', 'Paths are true arc-length curves and combine without losing geometry',
 "For every path built from the library's constructors (line, arc, circle, ellipse, spline, rectangle, aperture) and combinators (joining, extending, closing, cutting, phase shift, collections), evaluating it at a distance s along the path gives the point of the described curve at arc length s, and its reported length is the length of that curve. "
 "Start, middle and end points, closedness, the recorded corner positions (breakpoints) and path averages agree with that curve; joining or collecting paths keeps every constituent unchanged and in order.",
 ['inputs','programs'], 'all constructor parameters (including integers, negative and reversed arcs, 3D arcs) and all composition programs over the path operators',
 'Tests evaluate a handful of fixed paths at their end points; compositions of cut/phase/arc/join and intermediate points are never compared with an independent curve.',
 ['traceon/geometry.py'],
 [('path constructors and combinators','traceon/geometry.py class Path, PathCollection')],
 ['Path(t), path_length, breakpoints, is_closed, average, cut, add_phase'])

prop('C02', 'Move, rotate and mirror act as the stated rigid motion on every object',
 "Moving, rotating (counter clockwise about an axis through a given origin) or mirroring any geometric object - path, path collection, surface, surface collection or mesh - yields an object of the same kind whose every point is the stated rigid motion of the original's, with names, lengths, corner positions, groups and element connectivity kept. "
 "Rotation by zero and a motion followed by its inverse give back the object, and the original object is not changed.",
 ['inputs','programs'], 'all objects of all five kinds, all displacements/angles/origins and all sequences of motions',
 'Tests apply single motions to one or two objects; collections, meshes with groups, origins and sequences are not covered.',
 ['traceon/mesher.py','traceon/geometry.py'],
 [('GeometricObject.move/rotate/mirror_*','traceon/mesher.py'),('map_points implementations','traceon/geometry.py, traceon/mesher.py')])

prop('C03', 'Surfaces have the shape and edges their constructor describes',
 "Revolving, extruding, sweeping, spanning, box, sphere, disk, rectangle and aperture surfaces contain exactly the points the documented construction describes, parametrised over their full stated ranges with corner positions carried over. "
 "Boundary extraction returns the surface's true edges; extruding or revolving a boundary yields sides that start on the original surface's edge and, when enclosing, end exactly on the edge of the moved or rotated copy. "
 "A surface made from four boundary paths has those paths as its edges.",
 ['inputs','programs'], 'all generating paths (including multi-segment), vectors, angles (partial and full), axes, and boundary operations on the resulting surfaces',
 'Tests only check a few fixed radii/boxes; axis/sign conventions of caps, multi-segment sweeps and partial angles are sampled at no more than one point each.',
 ['traceon/geometry.py'],
 [('surface constructors','traceon/geometry.py class Surface'),('boundary extrusion/revolution','traceon/geometry.py Surface.extrude_boundary*, revolve_boundary_*'),('Path.revolve_*, extrude*','traceon/geometry.py')])

prop('C04', 'Mesh union, extraction and pruning preserve elements, names and points',
 "For every history of building meshes, adding them, extracting named groups, and dropping lines or triangles, the resulting mesh contains exactly the elements (as corner positions) that the history implies, each in exactly the named groups it implies, up to element orientation. "
 "Point storage never contains duplicates, every index is valid, only zero-area triangles disappear, and operand meshes are left unchanged.",
 ['histories','inputs'], 'all sequences of mesh operations over meshes with shared points, repeated names, empty groups, degenerate triangles and mixed line/triangle content, flat or higher order',
 'Tests add two small meshes; sequences with shared names, duplicate points and degenerate triangles before index remapping are not exercised.',
 ['traceon/mesher.py'],
 [('Mesh construction, deduplication, __add__, extract_physical_group','traceon/mesher.py class Mesh')])

prop('C05', 'Meshing follows the geometry, covers it fully and respects the mesh size',
 "Meshing a path or surface produces elements whose corners lie on the geometry, that cover it completely without gaps or overlaps, that keep every breakpoint as an element corner, and whose sides are no longer than the requested mesh size (diagonals of a meshed quad: the sum of two such sides; up to curvature). "
 "The mesh-size factor scales resolution, higher-order line elements interpolate the true curve, collections mesh every member, and every element of a named object is in the group of that name.",
 ['inputs','configurations'], 'all paths/surfaces/collections with any number of breakpoints in either direction, all mesh sizes or factors, names given at either place, flat or higher order',
 'Tests mesh a few shapes and mostly check names or counts; breakpoints in both directions, coverage and side lengths are not checked.',
 ['traceon/geometry.py','traceon/mesher.py'],
 [('path discretisation','traceon/geometry.py discretize_path, Path.mesh'),('quad subdivision and section stitching','traceon/mesher.py _mesh, PointStack, PointsWithQuads')])

prop('C06', 'Element normals can be made consistently outward, inward or flipped',
 "For any named group of closed surfaces or closed (or axis-to-axis) curves, with elements initially oriented and ordered arbitrarily, the normals of every element point outward after meshing/loading by default, point inward after asking for inward normals, and inverting the normals of a mesh reverses every element. "
 "A requested orientation is not silently undone by operations that do not mention orientation.",
 ['inputs','histories'], 'all closed shapes (convex or not, several bodies per group), all initial element orientations and orders, flat or higher order lines',
 'Tests check a sphere/box and one curve with the generator\'s own orientation; random flips, several bodies in one group and later operations are not covered.',
 ['traceon/mesher.py','traceon/backend/triangle.c'],
 [('orientation propagation and outward test','traceon/mesher.py _ensure_*_orientation, Mesh.flip_normals'),('triangle orientation comparison','traceon/backend/triangle.c triangle_orientation_is_equal')])

prop('C07', 'Meshes survive conversion and file round trips',
 "Writing a mesh to a file and reading it back, or converting to and from the interchange object, gives a mesh with the same elements (corner positions and curvature points) for lines and triangles, flat and higher order. "
 "Named cell sets of an imported mesh become named groups holding exactly those cells, and a name given when reading labels every element.",
 ['inputs'], 'all meshes, all supported file formats able to hold them, all cell-set layouts (several cell blocks, overlapping or partial sets)',
 'One test loads one STL file; other formats, higher order elements and cell sets over several blocks are not checked.',
 ['traceon/mesher.py'],
 [('Mesh.to_meshio/from_meshio/read_file/write_file','traceon/mesher.py')])

prop('C08', 'The solved potential satisfies the applied voltages and matches exact solutions',
 "For every radial or 3D electrode geometry, the potential of the solved field takes the applied voltage on each electrode (throughout the inside of any closed conductor), reproduces harmonic boundary data given as voltage functions, and agrees with exact solutions such as isolated and concentric spheres, within discretisation error that shrinks under refinement. "
 "Reported charges and element areas agree with the exact charge and area of the electrodes.",
 ['inputs','configurations'], 'all electrode shapes, positions, sizes and voltages (constants or functions of position), both symmetries, flat or higher order line meshes',
 'Tests solve a handful of fixed spheres/capacitors; arbitrary shapes, several electrodes with different voltages, voltage functions and refinement are not tested.',
 ['traceon/solver.py','traceon/backend/radial.c','traceon/backend/three_d.c','traceon/backend/triangle.c','traceon/backend/radial_ring.c'],
 [('matrix assembly','traceon/backend/radial.c fill_matrix_radial, traceon/backend/three_d.c fill_matrix_3d'),('right hand side and solve','traceon/solver.py Solver, ElectrostaticSolver')])

prop('C09', 'Solutions superpose linearly in the applied excitations',
 "The field solved for a combination of applied voltages, currents and magnetostatic potentials equals the same combination of separately solved fields. "
 "The superposition solver returns one field per group with a non-zero applied voltage, current or magnetostatic potential, each being the field of a unit excitation of that group with the others at zero, so that weighting them with the applied values reproduces the direct solution.",
 ['inputs','configurations'], 'all sets of electrodes, dielectrics, magnetizable bodies and coils with any values, including zeros and mixed electric and magnetic excitations',
 'Tests superpose two electrodes of one geometry; coils with magnetizable material and mixed excitations are not covered.',
 ['traceon/solver.py','traceon/excitation.py'],
 [('solve_direct_superposition','traceon/solver.py'),('unit excitation splitting','traceon/excitation.py Excitation._split_for_superposition')])

prop('C10', 'Solutions do not depend on placement, scale, element order or representation',
 "Rigidly moving the whole geometry (along the axis in radial symmetry), mirroring it, scaling all lengths, renumbering or reordering elements, renaming groups, adding unexcited geometry, or replacing a straight-element line mesh by its higher-order equivalent changes the solved fields only by the corresponding transformation. "
 "A radially symmetric problem solved in radial symmetry agrees with the same problem solved in 3D.",
 ['inputs','configurations'], 'all geometries with voltages, dielectrics or magnetostatic excitations, all rigid motions/scales/permutations',
 'No test compares a transformed problem with the original.',
 ['traceon/solver.py','traceon/excitation.py','traceon/mesher.py','traceon/backend/three_d.c','traceon/backend/radial.c'],
 [('matrix assembly near/far split','traceon/backend/three_d.c fill_matrix_3d'),('mesh upgrade','traceon/mesher.py _to_higher_order_mesh, traceon/solver.py solve_direct')])

prop('C11', 'Results do not depend on the number of worker threads',
 "Solving and interpolating with any number of worker threads, including more threads than there are elements or sample points, gives the same charges, potentials and interpolated fields up to rounding. "
 "No element or sample is skipped or processed twice whatever the split.",
 ['schedules','configurations'], 'all thread counts >= 1 and all problem sizes, in particular sizes smaller than, equal to and not divisible by the thread count',
 'The suite runs with one thread only; splits with single-row or empty chunks never occur.',
 ['traceon/util.py','traceon/solver.py','traceon/interpolation.py','traceon/backend/__init__.py'],
 [('work splitting','traceon/util.py split_collect'),('row ranges','traceon/solver.py get_matrix, traceon/backend/__init__.py fill_matrix_*')])

prop('C12', 'Every field is minus the gradient of its potential',
 "At every point off the charges, the electric field and the charge-produced magnetic field returned by a radial, 3D or axially interpolated field object equal minus the spatial gradient of the potential returned by the same object. "
 "Radial fields are rotationally symmetric about the z axis, including on and arbitrarily close to it, and the generic field/potential accessors return the electric or magnetic quantity that is present.",
 ['inputs'], 'all solved fields (any charge distribution, radial and 3D, interpolated) and all evaluation points including the axis, azimuths and negative coordinates',
 'Tests compare field and derivative at a few points of single rings; off-plane azimuth, near-axis and multi-element fields are not covered.',
 ['traceon/solver.py','traceon/interpolation.py','traceon/backend/radial.c','traceon/backend/three_d.c','traceon/backend/radial_ring.c','traceon/backend/three_d_point.c'],
 [('field and potential sums','traceon/backend/radial.c, traceon/backend/three_d.c'),('field objects','traceon/solver.py FieldRadialBEM, Field3D_BEM')])

prop('C13', "Fields obey Gauss's law and Laplace's equation away from charges",
 "For any solved field the flux through a closed surface equals the charge reported on the elements inside it, the average of the potential over a sphere free of charge equals the value at its centre, and far away the field is that of the total charge. "
 "Element areas and charges reported per element, per index set or per group are consistent with each other and with the geometry.",
 ['inputs'], 'all solved radial and 3D fields and all enclosing/non-enclosing test spheres and index sets',
 'Tests check the charge of one sphere and one capacitor; flux over arbitrary surfaces, subsets of electrodes and far fields are not checked.',
 ['traceon/solver.py','traceon/backend/radial.c','traceon/backend/three_d.c'],
 [('charge and area accessors','traceon/solver.py FieldBEM.charge_on_element(s), area_of_element(s)'),('field sums','traceon/backend/radial.c, traceon/backend/three_d.c')])

prop('C14', 'Dielectrics, magnetizable bodies and boundaries satisfy interface conditions',
 "Across the surface of a dielectric (magnetizable) body the normal field just inside times the relative permittivity (permeability) equals the normal field just outside, the potential is continuous, a body of permittivity one has no effect and carries no charge, and any such body carries zero net charge; this includes magnetizable bodies in the field of coils. "
 "At an electrostatic or magnetostatic boundary the field component normal to it vanishes on the side of the domain, for flat and higher-order meshes alike, and electrostatic and magnetostatic-potential problems with the same numbers have the same solution.",
 ['inputs','configurations'], 'all body shapes and permittivities/permeabilities, boundaries around arbitrary domains, both symmetries, flat and higher-order meshes, coil or potential excitation',
 'Tests cover one or two fixed dielectric spheres and one magnetizable body; boundaries on automatically upgraded meshes and coil-magnetised bodies elsewhere are not covered.',
 ['traceon/solver.py','traceon/excitation.py','traceon/mesher.py','traceon/backend/radial_ring.c','traceon/backend/three_d.c','traceon/backend/radial.c'],
 [('flux rows of the matrix','traceon/backend/radial.c, three_d.c, radial_ring.c flux_density_to_charge_factor'),('right hand side from currents','traceon/solver.py MagnetostaticSolver.get_right_hand_side'),('boundary orientation','traceon/excitation.py add_*_boundary')])

prop('C15', 'Coil fields obey the Biot-Savart and Ampere laws',
 "The magnetic field of a current-carrying coil cross-section equals the Biot-Savart field of its uniformly distributed total current, is independent of how the cross-section is triangulated or named across several groups, has circulation equal to the enclosed current, is divergence free, and is proportional to the applied current with the right-hand orientation documented for the axis. "
 "The axial current potential and its derivatives agree with that field on the axis.",
 ['inputs'], 'all coil cross-sections, positions, currents of either sign, multiple coils, and evaluation points on, near and off the axis',
 'Tests check single rings and one rectangular coil at fixed points.',
 ['traceon/solver.py','traceon/backend/radial_ring.c','traceon/backend/radial.c','traceon/backend/elliptic.c'],
 [('current charges','traceon/solver.py MagnetostaticSolver.get_current_charges'),('ring field','traceon/backend/radial_ring.c current_field_radial_ring'),('field sum','traceon/backend/radial.c current_field')])

prop('C16', 'Axial interpolation reproduces the solved field near the axis, zero outside',
 "Within the interpolated interval, both end points included, the axial series expansion gives the potential and field of the solved field on the axis and, with error decreasing like the series predicts, near it; its nodal axial derivatives are the true derivatives of the axial potential. "
 "Outside the interval potential and field are exactly zero, and evaluation anywhere is deterministic.",
 ['inputs','configurations'], 'all solved radial fields (electrostatic, magnetostatic, coils, mixtures), all intervals and sample counts, all points on and near the axis including the exact interval ends',
 'Tests compare at a few points inside one interval; the end points, other excitations and outside points are not covered.',
 ['traceon/interpolation.py','traceon/backend/radial.c','traceon/backend/radial_ring.c'],
 [('axial derivatives','traceon/backend/radial_ring.c axial_derivatives_radial_ring, current_axial_derivatives_radial_ring'),('spline coefficients','traceon/interpolation.py _quintic_spline_coefficients'),('series evaluation','traceon/backend/radial.c *_radial_derivs')])

prop('C17', 'Field objects form a vector space under +, - and scalar multiplication',
 "Adding, subtracting, negating and scaling (from either side) solved or interpolated fields gives a field whose potential and field at every point, and whose traced forces, are the same combination of the operands', for fields from the same or different geometries and for any mix of electric, magnetic and coil contributions. "
 "Operands are unchanged and the result reports being electrostatic/magnetostatic when an operand is.",
 ['programs','inputs'], 'all arithmetic expressions over fields of one kind (radial, 3D, axial) with int or float scalars',
 'Tests add two radial fields once; subtraction, negation, scaling and the other kinds are never called.',
 ['traceon/solver.py','traceon/interpolation.py'],
 [('operator overloads','traceon/solver.py FieldBEM, EffectivePointCharges; traceon/interpolation.py FieldAxial')])

prop('C18', 'Traced trajectories are accurate solutions of the equation of motion',
 "A traced trajectory starts at the given position with the speed of the given energy, has strictly increasing times and agrees with an independent high-accuracy integration of the Lorentz force in the same field, within the requested tolerance. "
 "It has all points but the last inside the given bounds and the last outside, conserves total energy in electrostatic and speed in magnetic fields, keeps bounded step lengths, and is continuous however many steps it needs.",
 ['inputs','configurations'], 'all field types (radial, 3D, interpolated, sums), launch conditions, bounds and tolerances, including trajectories longer than one internal block and trajectories starting at or beyond the bounds',
 'Tests trace a few fixed trajectories in simple fields; long traces, tolerances, mixed fields and bounds conditions are not covered.',
 ['traceon/tracing.py','traceon/backend/tracing.c','traceon/backend/__init__.py','traceon/backend/utilities_3d.c'],
 [('RKF45 stepping','traceon/backend/tracing.c trace_particle'),('block continuation','traceon/backend/__init__.py trace_particle_wrapper'),('Lorentz force','traceon/backend/utilities_3d.c combine_elec_magnetic_field')])

prop('C19', 'Field bounds cut the field off exactly outside the box',
 "After setting field bounds on a solved field, the electric and magnetic field inside the bounds is unchanged while outside (in x, y or z) it is zero, both when evaluated and when tracing, where particles outside the box move in straight lines at constant speed. "
 "Bounds may be given as any nested sequence of integers or floats and apply to radial and 3D fields alike.",
 ['inputs','configurations'], 'all bounds boxes (including boxes excluding the start, thin boxes, integer bounds), all field kinds, all trajectories entering, leaving or missing the box',
 'No test sets field bounds.',
 ['traceon/solver.py','traceon/tracing.py','traceon/backend/tracing.c','traceon/backend/__init__.py'],
 [('FieldBEM.set_bounds','traceon/solver.py'),('bounds test in force evaluation','traceon/backend/tracing.c field_radial_traceable, field_3d_traceable')])

prop('C20', 'Launch velocities have the requested energy and direction',
 "Every launch-velocity helper returns a vector whose magnitude is the energy in eV and whose direction is the requested one (normalised vector, spherical angles, or angle with the z axis in the xz plane, up or down); non-positive energies are rejected. "
 "Tracing converts it to the non-relativistic electron speed along the same direction, whatever the magnitude of the input direction.",
 ['inputs'], 'all positive energies, directions of any magnitude and angles',
 'Tests use a few fixed angles and energies.',
 ['traceon/tracing.py'],
 [('velocity helpers','traceon/tracing.py velocity_vec*, _convert_velocity_to_SI')])

prop('C21', 'Plane, axis and focus computations find the geometric intersection',
 "For any trajectory that crosses a plane exactly once, in either direction, the plane intersection is the point, with interpolated velocity, where the polyline crosses the plane, independent of the length or sign of the normal and of which point of the plane is given; a trajectory that does not reach the plane is reported as an error. "
 "The coordinate-plane and axis helpers are the corresponding special cases, and the focus of rays that meet in a point is that point (the least-squares point otherwise).",
 ['inputs'], 'all polylines (short or long, crossing at, between or near sample points), planes, and ray bundles',
 'Tests use straight or analytic trajectories crossing in one direction at fixed planes and a few ray bundles.',
 ['traceon/tracing.py','traceon/focus.py','traceon/backend/tracing.c'],
 [('plane_intersection','traceon/backend/tracing.c'),('helpers','traceon/tracing.py'),('focus_position','traceon/focus.py')])

prop('C22', 'Excitations apply to exactly the named elements and reject invalid requests',
 "For every history of excitation calls, the active elements of each kind are exactly the mesh elements of the groups last given an excitation of that kind, the returned per-name indices point at that group's elements in order, and each element carries its group's value (or the function's value at its centre). "
 "Unknown names, currents in 3D or on lines, non-planar radial meshes, unrecognised values and solving an empty excitation are rejected, and queries about the excitation reflect what was added.",
 ['histories','inputs'], 'all sequences of excitation calls on meshes with any number of (possibly interleaved, empty or unexcited) line and triangle groups',
 'Tests use one or two groups that cover the whole mesh, so index remapping is trivial.',
 ['traceon/excitation.py','traceon/solver.py'],
 [('active element selection','traceon/excitation.py Excitation._get_active_elements'),('add_* methods','traceon/excitation.py'),('value assignment','traceon/solver.py Solver.__init__')])

prop('C23', 'Numerical kernels agree with their mathematical definitions',
 "The elliptic integrals, adaptive quadrature, ring potential and its derivatives, axial ring derivatives, triangle potential, self potential and flux integrals, quadrature points and weights, element normals, areas and curved-element interpolation return the mathematical quantity they stand for, to the accuracy of double-precision quadrature. "
 "This holds over their whole domain including nearly singular configurations (targets close to, in the plane of, or on the element).",
 ['inputs'], 'all arguments in each kernel\'s domain: any triangle shape/orientation, target, ring radius/offset, modulus, smooth or peaked integrand',
 'Tests compare at a few random or fixed arguments in benign ranges.',
 ['traceon/backend/elliptic.c','traceon/backend/kronrod.c','traceon/backend/triangle.c','traceon/backend/radial_ring.c','traceon/backend/utilities_2d.c','traceon/backend/utilities_3d.c','traceon/backend/radial.c','traceon/backend/three_d.c'],
 [('kernels','traceon/backend/*.c'),('wrappers','traceon/backend/__init__.py')])

prop('C24', 'Log output respects the selected verbosity and never affects results',
 "At the silent level no library call writes to standard output or standard error; at every other level only messages of that severity or higher appear, whether the level is set by call or by environment variable (in any letter case, with unknown values ignored). "
 "Numerical results are identical at every level.",
 ['configurations','histories'], 'all log levels, both ways of setting them, all sequences of level changes interleaved with meshing, excitation, solving, interpolation and tracing calls',
 'No test looks at output.',
 ['traceon/logging.py','traceon/excitation.py','traceon/solver.py','traceon/mesher.py','traceon/tracing.py'],
 [('log functions','traceon/logging.py')])

prop('C25', 'Native code never reads or writes outside its buffers',
 "No sequence of supported library calls - meshing, orientation, solving, field evaluation, interpolation at any point including interval ends, tracing across block boundaries, plane intersection - makes the compiled code access memory outside the arrays it was given or use uninitialised or overflowing values. "
 "Results therefore do not depend on what lies next to those arrays in memory.",
 ['inputs','histories'], 'all supported public calls on all valid inputs, with boundary values over-represented',
 'Tests run the optimised library without any memory checking, so out-of-range reads go unnoticed or appear as flakiness.',
 ['traceon/backend/radial.c','traceon/backend/three_d.c','traceon/backend/tracing.c','traceon/backend/triangle.c','traceon/backend/__init__.py'],
 [('index clamps, buffers','traceon/backend/*.c'),('shape assertions','traceon/backend/__init__.py')])

prop('C26', '3D axial series coefficients reproduce the 3D potential around the axis',
 "The 3D radial-series coefficients computed from any set of surface charges, summed as the documented double series in radius and azimuth, give the potential of those charges at points near the axis; the interpolated series evaluation gives the same potential between samples, its field is minus its gradient (including on the axis), and it is zero outside the sampled interval. "
 "Tracing through such an interpolation agrees with tracing an independent evaluation of the same series.",
 ['inputs'], 'all charge distributions away from the axis, azimuths, radii within convergence, sample grids and points including interval ends',
 'No test evaluates the 3D series.',
 ['traceon/backend/three_d.c','traceon/backend/tracing.c','traceon/backend/__init__.py'],
 [('coefficients','traceon/backend/three_d.c axial_coefficients_3d'),('evaluation','traceon/backend/three_d.c potential_3d_derivs, field_3d_derivs')])

prop('C27', 'Equivalent numeric inputs give the same results',
 "Wherever a number, point, vector or table is accepted, giving it as integers or floats, Python lists, tuples or arrays, contiguous or strided, yields the same result. "
 "Inputs are never modified by a call.",
 ['inputs'], 'all public geometry, excitation, solving, evaluation, bounds, tracing and intersection calls with every representation of the same numbers',
 'Tests almost always pass float arrays or float lists.',
 ['traceon/geometry.py','traceon/mesher.py','traceon/solver.py','traceon/tracing.py','traceon/backend/__init__.py'],
 [('argument conversion','traceon/backend/__init__.py wrappers; np.array(...) calls in traceon/*.py')])

prop('C28', 'Calls are repeatable and independent of unrelated history',
 "Repeating any sequence of library calls gives the same results, and meshing, solving, interpolating, evaluating, combining and tracing leave their inputs (geometry, meshes, excitations, fields) as they were, so that interleaving work on several problems in any order gives each the results it has in isolation. "
 "Only calls documented to change an object (adding an excitation, in-place addition, setting bounds, orienting boundary normals) change it.",
 ['histories'], 'all interleavings of build, mesh, excite, solve, evaluate, interpolate, combine and trace steps over several concurrent problems',
 'Every test builds its own problem and runs one fixed sequence once.',
 ['traceon/geometry.py','traceon/mesher.py','traceon/excitation.py','traceon/solver.py','traceon/interpolation.py'],
 [('copies of shared state','traceon/solver.py _excitation_to_higher_order, traceon/mesher.py Mesh.__init__, traceon/geometry.py')])

prop('C29', 'Plots show the data they are given',
 "Every plotting call adds to the current figure graphical objects whose coordinates, colours and values are those of the data: all mesh elements with the colour chosen for their group, normals along the element normals, trajectories limited to the requested ranges, potential values of the field at the surface points, and charge densities coloured on one common scale. "
 "Empty meshes are rejected and empty trajectories skipped.",
 ['inputs'], 'all meshes with any groups and colour choices, fields, surfaces and trajectories with any combination of range limits',
 'The plotting module is imported but never called by a test.',
 ['traceon/plotting.py'],
 [('Figure.plot_*','traceon/plotting.py')])

prop('C30', 'Traced particles arrive where exact field theory says',
 "Through the whole chain of drawing geometry, exciting, solving, combining and interpolating fields, tracing, intersecting with planes and finding the focus, particles follow the trajectories of the exact field of the problem to the discretisation and tracing tolerance: positions, velocities, arrival times, intersections and focal points agree with an independent integration of the equation of motion in the closed-form field. "
 "This holds for directly evaluated and for axially interpolated fields, electrostatic and magnetic, radial and 3D.",
 ['inputs'], 'all closed-form electrode and coil problems (cans holding harmonic potentials, concentric spheres, windings), 3D bodies, particle starts, energies, masses and charges',
 'Tests trace in a few given analytic fields and validate single devices at one setting.',
 ['traceon/solver.py','traceon/interpolation.py','traceon/tracing.py','traceon/focus.py','traceon/backend/tracing.c','traceon/backend/radial.c'],
 [('field to force chain','traceon/tracing.py Tracer, traceon/solver.py get_low_level_trace_function'),('intersection and focus','traceon/tracing.py *_intersection, traceon/focus.py')])

prop('C31', 'Arguments mean the same by name, by position and when left at defaults',
 "Every constructor, geometry operation, meshing and file call, excitation, field and tracing function gives the same result whether its documented arguments are passed by name, in any order, or by position in the documented order. "
 "An argument that is left out means its documented default value - full turns for angles, the origin and zero displacement for motions, z=0 for apertures, enclosing caps, outward (for boundaries inward) normals, 100 samples for splines, tolerance 1e-10 for tracing, no name, no boundary corners, an empty mesh - in every call, however often and in whatever order calls were made before.",
 ['inputs','histories'], 'all public functions and methods of the geometry, mesher, excitation, solver, interpolation and tracing modules, all values of their arguments, all ways to pass them, all sequences of calls',
 'Tests pass each argument in one way only and never compare a call that relies on a default with one that spells it out.',
 ['traceon/geometry.py','traceon/mesher.py','traceon/excitation.py','traceon/solver.py','traceon/interpolation.py','traceon/tracing.py'],
 [('signatures and defaults of the public functions','traceon/*.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
