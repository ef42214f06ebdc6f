#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (only registered checks are claimed)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sa import registry

G = 'src/gpytoolbox/'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, quant, why, files, mech, observe, technique=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                observe=observe, technique=technique, na=na)


AI = 'abstract interpretation of the Python syntax tree'
PROPS = [
 P('C01', 'Library functions never modify the arrays passed to them',
   'No public function or class changes the contents, shape or ordering of an array, sparse matrix, list or other mutable object that the '
   'caller passes in, whatever the options, whether the write would be direct, through a view or inside a helper. The single exception is '
   'the state object that the incremental reach-for-the-spheres step is documented to advance.',
   ['inputs', 'configurations', 'programs'], 'every documented configuration of every public function, every option combination and path',
   'A test sees a modified input only for the options it uses and only if it compares the inputs afterwards; almost none do, and views '
   'alias silently.',
   [G + 'normalize_points.py', G + 'remove_duplicate_vertices.py', G + 'fixed_dof_solve.py', G + 'squared_distance.py', G + 'subdivide.py'],
   [('in-place operators, item stores, mutating methods and out= arguments', G),
    ('copy before modification', G + 'normalize_points.py:normalize_points')],
   ['caller arrays after the call'], AI + ' with alias roots'),
 P('C02', 'Calls leave no state behind in the package',
   'A call never stores anything in module variables, class or function attributes, default-argument objects or caches, so a second call '
   'with equal arguments starts from exactly the same state as the first. Results therefore do not depend on the history of earlier calls.',
   ['histories', 'inputs', 'configurations'], 'every sequence of calls to the public functions',
   'Tests call each function a few times in a fixed order and do not compare against a fresh process.',
   [G + 'min_l1_with_fixed.py', G + 'matryoshka.py', G + 'gaussian_process.py', G + 'reach_for_the_spheres.py'],
   [('absence of global writes, mutable defaults that are written, and caching', G)], ['results of repeated calls'],
   AI + ' with global and default-argument alias roots'),
 P('C03', 'Random results are determined by the generator or seed the caller supplies',
   'When a caller supplies a random generator or a seed, every random number used comes from it, so that the same generator state or seed '
   'gives the same result. Functions that take neither draw no random numbers, and no function reads or reseeds the process-wide NumPy generator.',
   ['inputs', 'histories', 'configurations'], 'every call with a supplied generator or seed, in any global random state',
   'Tests of random functions check distributions loosely and rarely run twice under different global random states.',
   [G + 'random_points_on_mesh.py', G + 'metropolis_hastings.py', G + 'reach_for_the_arcs.py', G + 'reach_for_the_spheres.py'],
   [('provenance of every generator drawn from', G)], ['returned samples'], AI + ' tracking generator provenance'),
 P('C04', 'The permissively licensed package never uses the copyleft part',
   'Importing or calling anything outside the copyleft subpackage never imports, calls or links to code in the copyleft subpackage or to its '
   'native binding and its copyleft-licensed native dependencies. Copyleft functionality is reachable only through the copyleft namespace.',
   ['programs', 'configurations'], 'every import chain, call and native build target',
   'Tests import everything in one process, so a licence leak changes no result.',
   [G + '__init__.py', G + 'copyleft/__init__.py', 'CMakeLists.txt', 'src/cpp'],
   [('import graph', G), ('include closure of the binding target', 'CMakeLists.txt')], ['sys.modules after import', 'link line'],
   'import-graph and include-closure analysis'),
 P('C05', 'Pure-Python functionality works without the native extension',
   'Importing the package needs neither the compiled extension nor any undeclared third-party package, and functions (or option values) '
   'documented as pure Python never load the extension on any path. Only functions documented as native fail when the extension is missing, '
   'and only when they are called.',
   ['configurations', 'inputs', 'programs'], 'every path of the pure-Python functions and every module executed at import',
   'The tests run in one environment; a lazy import on a rare path or an eager one in a rarely imported module is not exercised.',
   [G + '__init__.py', G + 'squared_distance.py', G + 'read_mesh.py', 'setup.py'],
   [('imports executed at module level', G), ('imports reachable from public functions', G)], ['import errors'],
   'import-effect analysis over module bodies and ' + AI),
 P('C06', 'Nothing is printed unless verbose output was requested',
   'With verbose output off (the default) no public function writes to standard output, for any input or option. Functions that have no '
   'verbosity option never write to it.',
   ['inputs', 'configurations'], 'every path of every public function with verbosity off',
   'Tests ignore standard output.', [G + 'reach_for_the_spheres.py', G + 'gaussian_process.py', G + 'particle_swarm.py'],
   [('print and stdout effects', G)], ['standard output'], 'effect analysis by ' + AI),
 P('C07', 'Unrecognised option values are rejected and documented ones accepted',
   'A function that selects its behaviour by a named option raises an error for any value it does not recognise instead of silently '
   'returning some other variant\'s result. Every documented value of the option leads to a result.',
   ['configurations', 'inputs'], 'every option parameter, every documented value, and a value different from all of them',
   'Tests use the documented spellings of some options; a fall-through branch is only hit by the misspelling nobody tries.',
   [G + 'massmatrix_intrinsic.py', G + 'biharmonic_energy.py', G + 'subdivide.py', G + 'regular_cube_mesh.py', G + 'decimate.py',
    G + 'read_mesh.py', G + 'min_l1_with_fixed.py', G + 'copyleft/mesh_boolean.py'],
   [('option dispatch', G)], ['exceptions for misspelt options'], AI + ' with an opaque unrecognised option value'),
 P('C08', 'File-format errors reported by native readers and writers reach the caller',
   'When a native mesh reader or writer reports a nonzero error code, the caller gets an exception; no error code is dropped and no partial '
   'mesh is returned as if reading had succeeded. The same holds for every native routine that returns an error code.',
   ['fault_sequences', 'inputs'], 'every error code of every native routine that reports one',
   'Tests read well-formed files; the error branches are never taken.',
   [G + 'read_mesh.py', G + 'write_mesh.py', 'src/cpp'], [('error code checks', G + 'read_mesh.py:_read_obj')], ['exceptions for malformed files'],
   AI + ' of the branches on each returned error code'),
 P('C09', 'Calls into the native extension match what the extension exports',
   'Every native routine the Python code calls exists and is registered and compiled into the extension, is passed the number, order and '
   'element types of arguments it declares, and its results are unpacked as the number of values it returns. The documented arguments of the '
   'public wrapper reach the native parameters of the same meaning.',
   ['inputs', 'configurations', 'programs'], 'every call site of a native routine and every wrapper argument',
   'Here the extension is not even built for the tests; and where it is, integer dtype or swapped arguments of equal shape pass silently.',
   [G + 'squared_distance.py', G + 'remesh_botsch.py', G + 'decimate.py', G + 'marching_cubes.py', G + 'point_cloud_to_mesh.py', 'src/cpp'],
   [('binding declarations', 'src/cpp'), ('call sites', G)], ['results of native-backed functions'],
   'cross-language contract check: parsed binding declarations against ' + AI),
 P('C10', 'Results have the documented sizes',
   'For every input size (number of vertices, faces, queries, grid nodes, dimensions), the arrays and sparse operators returned by the '
   'pure-Python functions have the documented shape as a function of the input sizes. In particular differential operators have the size of '
   'the full vertex set even when some vertices are unreferenced.',
   ['inputs', 'configurations'], 'all input sizes, as symbolic polynomials, for the documented configurations',
   'Tests use a few meshes whose sizes rarely separate the candidates (all vertices referenced, square grids, equal counts).',
   [G + 'fd_grad.py', G + 'cotangent_laplacian_intrinsic.py', G + 'massmatrix_intrinsic.py', G + 'regular_square_mesh.py', G + 'dec_d0.py'],
   [('shape arithmetic', G)], ['result shapes'], AI + ' with symbolic polynomial shapes'),
 P('C11', 'Geometric quantities scale with the right power of length',
   'If all input coordinates and lengths are multiplied by a positive factor, every result scales by the documented power of it: lengths by '
   'one, areas and mass matrices by two, volumes by three, gradients by minus one, angles, normals, Laplacians, weights and indices not at all. '
   'No absolute tolerance or hidden length scale may break this in the functions documented as geometric quantities.',
   ['inputs'], 'all positive scale factors and all inputs, for every result with documented units',
   'Tests use meshes of unit size, so a wrong power or an absolute constant is invisible or within tolerance.',
   [G + 'doublearea.py', G + 'massmatrix_intrinsic.py', G + 'grad.py', G + 'cotangent_weights_intrinsic.py', G + 'fd_partial_derivative.py'],
   [('homogeneity degrees of every expression', G)], ['result under scaling'], AI + ' with homogeneity degrees'),
 P('C12', 'Geometric quantities do not depend on the choice of origin',
   'If the same translation is added to all input positions, returned positions translate with them and every other result (lengths, areas, '
   'angles, normals, operators, distances, indices, coordinates) is unchanged. No function treats the origin as a special point.',
   ['inputs'], 'all translations and all inputs, for every result with a documented geometric meaning',
   'Tests use meshes centred near the origin.',
   [G + 'barycentric_coordinates.py', G + 'fd_interpolate.py', G + 'squared_distance_to_element.py', G + 'signed_distance_polygon.py', G + 'volume.py'],
   [('translation weights of every expression', G)], ['result under translation'], AI + ' with translation weights'),
 P('C13', 'Batched functions treat every row independently',
   'For functions that map a batch of queries, elements or parameters row by row, each row of the result depends only on the same row of the '
   'batch (and on the shared arguments), never on the other rows. Evaluating a subset of the rows gives that subset of the results.',
   ['inputs'], 'all batches and all subsets of rows',
   'Tests compare whole batches against a reference computed the same way; cross-row leaks need particular neighbours to show.',
   [G + 'barycenters.py', G + 'fd_interpolate.py', G + 'winding_number.py', G + 'catmull_rom_spline.py', G + 'cotangent_weights_intrinsic.py'],
   [('row dependence of every expression', G)], ['result of a sub-batch'], AI + ' with row dependence'),
 P('C14', 'Extrinsic operators are the intrinsic ones evaluated on the edge lengths',
   'Every operator that exists in an extrinsic and an intrinsic version returns, for a mesh, exactly what the intrinsic version returns for '
   'the squared edge lengths of that mesh, the same faces, the full vertex count and the same options. The two versions can never drift apart.',
   ['inputs', 'configurations'], 'all meshes and all options',
   'Tests compare the two versions on a handful of closed meshes with default options.',
   [G + 'cotangent_laplacian.py', G + 'massmatrix.py', G + 'dec_h1.py', G + 'biharmonic_energy.py', G + 'angle_defect.py'],
   [('delegation to the intrinsic version', G)], ['operator entries'], AI + ' with symbolic value terms'),
 P('C15', 'The number and order of returned values depends only on the return flags',
   'For fixed return flags, every path through a function returns the same number of results, and that number is the documented one for '
   'every combination of flags and every input, including empty and degenerate input. Each flag adds its own results without displacing others.',
   ['inputs', 'configurations'], 'every combination of return flags and every path',
   'Tests use few flag combinations and rarely the early exits.',
   [G + 'edges.py', G + 'faces.py', G + 'read_mesh.py', G + 'remove_unreferenced.py', G + 'random_points_on_mesh.py', G + 'subdivide.py'],
   [('return statements', G)], ['length of the returned tuple'], AI + ' of every return path'),
 P('C17', 'Every accepted parameter has an effect',
   'No parameter is silently ignored: each argument of a public function influences at least one of its results in the configuration it is '
   'documented for, all the way down through the helpers it delegates to. (Verbosity only influences what is printed.)',
   ['inputs', 'configurations'], 'every parameter of every documented configuration',
   'A test that passes a non-default value and checks a tolerance still passes when the value is not forwarded.',
   [G + 'angle_defect.py', G + 'linear_elasticity.py', G + 'signed_distance.py', G + 'stochastic_poisson_surface_reconstruction.py'],
   [('forwarding of arguments', G)], ['results as a function of each argument'], 'interprocedural dependence analysis by ' + AI),
 P('C18', 'Documented defaults are the actual defaults',
   'Whenever the documentation of a public function states a literal default value of a parameter, calling the function without that parameter '
   'behaves as if that value had been passed.',
   ['configurations'], 'every documented default of every public function and class',
   'Tests do not read documentation.', [G], [('signatures and documentation', G)], ['behaviour with omitted arguments'],
   'signature/documentation comparison over the syntax tree'),
 P('C19', 'Index results are integers',
   'Every result documented as indices, faces, edges or counts has an integer element type for every input, so that it can be used to index '
   'arrays directly. This includes results for empty input.',
   ['inputs', 'configurations'], 'every path of every function returning indices',
   'Floating-point indices compare equal to integer ones in the tests\' assertions.',
   [G + 'edges.py', G + 'cut_edges.py', G + 'regular_square_mesh.py', G + 'triangle_triangle_adjacency.py', G + 'remove_unreferenced.py'],
   [('element type of every expression', G)], ['dtype of index results'], AI + ' with element types'),
 P('C16', 'Asking for verbose output never changes the results',
   'For every function with a verbosity option, the returned values and the random numbers consumed are the same whether or not verbose output '
   'is requested. Verbosity only adds printed output.',
   ['inputs', 'configurations'], 'all inputs of every function that takes a verbosity flag, both values of the flag',
   'Tests run with verbosity off, or with it on but without comparing the two.',
   [G + 'reach_for_the_spheres.py', G + 'reach_for_the_arcs.py', G + 'gaussian_process.py', G + 'particle_swarm.py', G + 'matryoshka.py',
    G + 'stochastic_poisson_surface_reconstruction.py'],
   [('branches on the verbosity flag', G)], ['results with verbose=True and verbose=False'], 'dependence analysis by ' + AI),
 P('C20', 'Only file functions touch the file system',
   'No function other than the mesh, matrix and image readers and writers opens, creates, changes or deletes a file, starts a process or changes the '
   'working directory. Readers never write, readers and writers use only the path they are given, and every file they open is closed on every '
   'path including errors.',
   ['inputs', 'fault_sequences', 'configurations'], 'every path of every public function, and every native source file',
   'Tests do not observe the file system, and a leaked handle or stray debug file changes no result.',
   [G + 'read_mesh.py', G + 'write_mesh.py', G + 'read_dmat.py', G + 'png2poly.py', 'src/cpp'],
   [('file effects', G), ('with statements around open', G + 'read_mesh.py')], ['files and handles after the call'],
   'effect analysis by ' + AI + ' and a scan of the native sources'),
 P('C23', 'Results never share memory with the arguments or with package data',
   'Every array or sparse matrix returned by a function is new memory: changing a result in place never changes an array the caller passed in, nor a table '
   'or default the package keeps, and the other way round. This holds for every option and path, including early exits where nothing had to be computed.',
   ['inputs', 'configurations', 'histories'], 'every result of every public function in every documented configuration',
   'Tests never modify results and then look at the inputs; aliasing appears only on the path where a copy was thought unnecessary.',
   [G + 'subdivide.py', G + 'colormap.py', G + 'reach_for_the_spheres.py', G + 'remove_unreferenced.py', G + 'ray_box_intersect.py', G + 'matryoshka.py'],
   [('copies of arguments before they are returned', G)], ['inputs after a result is modified'], AI + ' with alias roots'),
 P('C24', 'Results depend on nothing but the arguments and the random generator',
   'The values a function returns are determined by its arguments and the random numbers drawn. They never depend on the clock, environment variables, the '
   'working directory, the machine, object addresses, string hashing, or the previous contents of memory that was allocated but not (completely) written.',
   ['inputs', 'histories', 'configurations'], 'every result of every public function on every path',
   'Uninitialised memory is usually zero in a fresh process, and the environment is the same in every test run.',
   [G + 'min_quad_with_fixed.py', G + 'read_dmat.py', G + 'reach_for_the_spheres.py', G + 'remesh_botsch.py'],
   [('allocation without initialisation', G), ('reads of the clock and environment', G)], ['results of repeated calls in different environments'],
   'taint analysis by ' + AI),
 P('C21', 'Documented calls never end in an internal error',
   'For arguments of the documented kinds and sizes, no option, flag or branch of a public function uses a name, attribute or dictionary key that does not '
   'exist, calls a helper with arguments that do not fit its signature, uses an omitted optional argument as if it had been given, unpacks the wrong number of '
   'values, or combines or indexes arrays whose sizes do not fit each other. Every documented combination of arguments reaches a result.',
   ['inputs', 'configurations'], 'every option, flag and branch of every public function, for all input sizes',
   'An error on a branch is seen only by a test that takes the branch, and most options and flags are tested alone or not at all.',
   [G + 'read_mesh.py', G + 'subdivide.py', G + 'fixed_dof_solve.py', G + 'gaussian_process.py', G + 'stochastic_poisson_surface_reconstruction.py'],
   [('every expression on the paths of the declared configurations', G)], ['exceptions of a documented call'],
   AI + ' with symbolic sizes; an expression that fails on every visit is reported'),
 P('C22', 'Integer-valued coordinates are treated like the equal real numbers',
   'When positions, lengths or other real-valued arrays are passed as integer arrays, every function gives the result it gives for the equal floating-point '
   'arrays. Intermediate or returned values are never truncated to integers, and no call fails, because an array took over the integer type of an argument.',
   ['inputs'], 'every function with real-valued array arguments, for every integer-valued input',
   'Nearly all tests pass floating-point meshes; grids and toy meshes typed as integers are what users try first.',
   [G + 'stochastic_poisson_surface_reconstruction.py', G + 'reach_for_the_arcs.py', G + 'catmull_rom_spline.py', G + 'subdivide.py', G + 'remesh_botsch.py'],
   [('item stores, in-place operators, fills and conversions', G)], ['results for integer arrays'],
   AI + ' of element types with integer-typed arguments'),
]

NA = [
 P('C40', 'Distances and signed distances are correct',
   'The distance returned for a query is the minimum over all elements of the shape, the sign is negative exactly inside, and the accelerated and '
   'brute-force variants agree for every query.', ['inputs'], 'all shapes and queries',
   'Tests sample random queries.', [G + 'squared_distance.py', G + 'signed_distance.py'], [('tree traversal', G + 'squared_distance.py')],
   ['distances'], na='the minimum over runtime geometry and the pruning of a tree are numerical facts that no sound static argument in reach bounds; '
   'scaling, translation, row independence and sizes of these results are decided by C10-C13'),
 P('C41', 'Mesh files survive a write/read round trip',
   'Reading back a written mesh gives the same vertices, faces, normals, texture coordinates and colours for every supported format, reader and writer.',
   ['inputs', 'configurations'], 'all meshes, formats and option combinations', 'Tests write a few meshes.',
   [G + 'write_mesh.py', G + 'read_mesh.py'], [('format printers and parsers', G + 'write_mesh.py')], ['mesh read back'],
   na='needs reasoning about unbounded text produced and parsed at run time (number formatting, tokens), outside what static analysis decides; the call '
   'contract, error codes and result structure are decided by C08, C09 and C15'),
 P('C42', 'Remeshing, decimation and booleans return valid meshes',
   'Meshes returned by remeshing, decimation, subdivision, offsetting, boolean and reconstruction functions have valid indices, no degenerate faces and the '
   'documented topology.', ['inputs'], 'all input meshes', 'Tests use a few meshes.',
   [G + 'remesh_botsch.py', G + 'decimate.py', G + 'offset_surface.py'], [('native remeshers', 'src/cpp')], ['returned meshes'],
   na='the work happens in native code over runtime geometry (libigl, CGAL) whose sources are not in the tree; no static argument in reach bounds it'),
 P('C43', 'Solvers return optimal feasible points',
   'The quadratic and l1 solvers return a point that satisfies the constraints and is optimal to solver precision.', ['inputs'], 'all problems',
   'Tests solve random problems.', [G + 'min_quad_with_fixed.py', G + 'min_l1_with_fixed.py'], [('KKT systems', G + 'min_quad_with_fixed.py')],
   ['residuals'], na='optimality of a floating-point solve is a runtime quantity; the sizes, inputs and options of the solvers are decided by C01, C10 and C17'),
 P('C44', 'Reconstruction iterations converge and terminate',
   'The iterative reconstructions stop, and their output interpolates the given signed distances within tolerance.', ['inputs', 'schedules'],
   'all signed distance samples', 'Tests run a few shapes.', [G + 'reach_for_the_spheres.py', G + 'reach_for_the_arcs.py'],
   [('outer iteration', G + 'reach_for_the_spheres.py')], ['distance of the result to the samples'],
   na='convergence is a numerical property of the iteration; its reproducibility is decided by C03'),
 P('C45', 'Discrete operators converge to the smooth ones',
   'Gradients, Laplacians, mass matrices and curvature converge under refinement and reproduce linear or constant functions.', ['inputs'],
   'all refining mesh sequences', 'Tests refine a few meshes.', [G + 'grad.py', G + 'cotangent_laplacian.py', G + 'fd_grad.py'],
   [('element formulas', G + 'grad_intrinsic.py')], ['convergence rate'],
   na='convergence quantifies over limits of runtime values; units, sizes, origin-independence and structure of the operators are decided by C10-C12 and C14'),
]

NOTE = ('Decides the property on the current source without running it. Violations are definite facts (a construct is named); constructs the analysis '
        'cannot decide are listed as undecided in the evidence and raise no alarm. Trusts the transfer functions for NumPy/SciPy/Python in sa/np*.py '
        'and the declared configurations in sa/specs.py.')


def line(p):
    return {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe']}}


def main():
    claimed = [p for p in PROPS if p['id'] in registry.CHECKS]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in claimed + NA:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(line(p)) + '\n')
    missing = set(registry.CHECKS) - {p['id'] for p in claimed}
    assert not missing, missing
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa >/dev/null 2>&1 || true',
         'checks': [{'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} --quick',
                     'thorough_cmd': f'python3 check.py {p["id"]} --thorough', 'technique': 'static analysis: ' + p['technique'],
                     'level': 'other', 'level_note': registry.CHECKS[p['id']][1] + ' ' + NOTE} for p in claimed],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in NA]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(claimed), 'claimed', len(NA), 'not applicable')


main()
