"""C04 licence isolation, C05 importability, C09 Python/C++ binding contract."""
import ast
import os
import re
import sys
from ..cpp import Cpp
from ..drive import run, configs
from ..engine import sweep
from ..project import AnalysisBroken
from ..values import const, top, V, tup, NOC
from ..terms import T

COPYLEFT_EXT = 'gpytoolbox_bindings_copyleft'
CORE_EXT = 'gpytoolbox_bindings'


def imports(proj, m):
    """[(node, absolute module name)] of every import in a module, at any depth."""
    out = []
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out.append((n, a.name))
        elif isinstance(n, ast.ImportFrom):
            src = proj.resolve_from(m, n)
            out.append((n, src))
            for a in n.names:
                if f'{src}.{a.name}' in proj.modules:
                    out.append((n, f'{src}.{a.name}'))
                elif src.split('.')[0] == COPYLEFT_EXT:
                    out.append((n, src))
        elif isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            if nm in ('import_module', '__import__'):
                out.append((n, n.args[0].value))
    return out


def is_copyleft(name):
    return name == 'gpytoolbox.copyleft' or name.startswith('gpytoolbox.copyleft.') or name.split('.')[0] == COPYLEFT_EXT


def c04(proj, res, tier):
    core = [m for m in proj.modules.values() if not is_copyleft(m.name)]
    if len(core) < 80:
        raise AnalysisBroken('core modules vanished')
    for m in core:
        for n, name in imports(proj, m):
            res.count('rule_instances')
            if is_copyleft(name):
                res.add(f'C04|{m.name}|{name}', f'permissively licensed module imports {name}', m.rel, n.lineno, m.name)
        # attribute chains gpytoolbox.copyleft.<...>
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == 'copyleft' and isinstance(n.value, ast.Name) \
                    and n.value.id in ('gpytoolbox', 'gpy'):
                res.add(f'C04|{m.name}|attr', 'permissively licensed module uses gpytoolbox.copyleft', m.rel, n.lineno, m.name)
    res.cov['core_modules'] = len(core)
    cpp = Cpp(proj.repo)
    tg = cpp.cmake()
    for t in (CORE_EXT, 'cpytoolbox'):
        if t not in tg:
            raise AnalysisBroken(f'CMake target {t} vanished')
        for l in tg[t]['link']:
            res.count('rule_instances')
            if re.search(r'copyleft|cgal', l, re.I):
                res.add(f'C04|cmake|{t}|{l}', f'target {t} links {l}', 'CMakeLists.txt', 0, t)
        seen, incs = cpp.closure(tg[t]['src'])
        res.count('cpp_files_in_core_closure', len(seen))
        for f, line, inc in incs:
            res.count('rule_instances')
            if re.search(r'(^|/)CGAL/|(^|/)copyleft/|^gmp|^mpfr', inc):
                res.add(f'C04|{f}|{inc}', f'core extension source includes {inc}', f, line, t)
        for f in seen:
            for mm in re.finditer(r'igl::copyleft::\w+|\bCGAL::\w+', cpp.files[f]):
                line = cpp.files[f].count('\n', 0, mm.start()) + 1
                res.add(f'C04|{f}|{mm.group(0)}', f'core extension source uses {mm.group(0)}', f, line, t)
        if 'src/cpp/binding_booleans.cpp' in tg[t]['src']:
            res.add(f'C04|cmake|{t}|booleans', f'target {t} compiles the copyleft boolean bindings', 'CMakeLists.txt', 0, t)
    # the copyleft registrar must not be reachable from the core module
    core_src = cpp.files.get('src/cpp/gpytoolbox_bindings_core.cpp', '')
    if re.search(r'\bbinding_booleans\s*\(\s*m\s*\)', core_src):
        res.add('C04|core|booleans', 'core extension registers the copyleft boolean bindings', 'src/cpp/gpytoolbox_bindings_core.cpp', 0, '')
    res.samples = sorted(m.name for m in core)[:8]
    res.assumptions.append('CMake variables are set by plain set() calls; no import name is assembled from pieces at run time')


# ------------------------------------------------------------------ C05
def declared_requirements(repo):
    p = os.path.join(repo, 'setup.py')
    if not os.path.exists(p):
        raise AnalysisBroken('setup.py is missing')
    t = ast.parse(open(p, encoding='utf-8').read())
    for n in ast.walk(t):
        if isinstance(n, ast.keyword) and n.arg == 'install_requires':
            try:
                req = ast.literal_eval(n.value)
            except Exception:
                raise AnalysisBroken('install_requires is not a literal')
            return {re.split(r'[<>=!~\[ ;]', r)[0].lower() for r in req}
    raise AnalysisBroken('install_requires not found in setup.py')


DIST2MOD = {'scikit-image': 'skimage', 'scikit-learn': 'sklearn', 'pyyaml': 'yaml', 'pillow': 'PIL'}
GUARDS = {'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException'}


def guarded_body(t):
    for h in t.handlers:
        if h.type is None:
            return not any(isinstance(x, ast.Raise) for x in h.body)
        ns = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)}
        if ns & GUARDS:
            return not any(isinstance(x, ast.Raise) for x in h.body)
    return False


def toplevel_imports(body, guarded=False):
    """[(node, guarded)] of the imports executed when the body runs at module level."""
    out = []
    for n in body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out.append((n, guarded))
        elif isinstance(n, ast.Try):
            out += toplevel_imports(n.body, guarded or guarded_body(n))
            for h in n.handlers:
                out += toplevel_imports(h.body, guarded)
            out += toplevel_imports(n.orelse, guarded) + toplevel_imports(n.finalbody, guarded)
        elif isinstance(n, ast.If):
            if isinstance(n.test, ast.Name) and n.test.id == 'TYPE_CHECKING' or \
                    isinstance(n.test, ast.Attribute) and n.test.attr == 'TYPE_CHECKING':
                out += toplevel_imports(n.orelse, guarded)
                continue
            out += toplevel_imports(n.body, guarded) + toplevel_imports(n.orelse, guarded)
        elif isinstance(n, (ast.For, ast.While, ast.With, ast.ClassDef)):
            out += toplevel_imports(n.body, guarded)
    return out


# public functions that may load the core extension on some path; everything else must never do so
NATIVE_OK = {'biharmonic_energy', 'biharmonic_energy_intrinsic', 'squared_distance', 'unsigned_distance', 'signed_distance',
             'winding_number', 'fast_winding_number', 'approximate_hausdorff_distance', 'ray_mesh_intersect', 'in_element_aabb',
             'particle_swarm', 'matryoshka', 'decimate', 'remesh_botsch', 'offset_surface', 'marching_cubes',
             'dual_contouring_of_signed_distance_data', 'point_cloud_to_mesh', 'upper_envelope', 'swept_volume',
             'copyleft.swept_volume', 'copyleft.do_meshes_intersect', 'copyleft.mesh_boolean', 'copyleft.lazy_cage',
             'reach_for_the_arcs', 'reach_for_the_spheres', 'reach_for_the_spheres_iteration', 'squared_distance_precompute',
             'fast_winding_number_precompute', 'ray_mesh_intersect_precompute', 'read_mesh', 'write_mesh'}
# option values documented to select the pure Python implementation
PURE = [('squared_distance', '3d', {'use_cpp': False}), ('squared_distance', '2d', {'use_cpp': False}),
        ('unsigned_distance', 'open', {'use_cpp': False}), ('particle_swarm', '', {'use_cpp': False}),
        ('approximate_hausdorff_distance', '3d', {'use_cpp': False}), ('ray_mesh_intersect', '', {'use_embree': False}),
        ('signed_distance', '2d', {'use_cpp': False}),
        ('read_mesh', '', {'reader': 'Python', 'fmt': 'obj'}), ('write_mesh', '', {'writer': 'Python', 'fmt': 'obj'}),
        ('biharmonic_energy', 'open', {'bc': 'mixedfem_zero_neumann'}), ('biharmonic_energy', 'open', {'bc': 'hessian'}),
        ('biharmonic_energy_intrinsic', 'open', {'bc': 'mixedfem_zero_neumann'})]


def nat_events(r):
    out = []
    for e in r.events:
        if e.kind == 'native_import' and not e.qual.endswith('<module>'):
            out.append((e.info['name'], e.mod.rel, e.node.lineno, e.qual.replace(':', '.')))
    return out


def c05(proj, res, tier):
    std = set(sys.stdlib_module_names)
    req = {DIST2MOD.get(r, r) for r in declared_requirements(proj.repo)}
    seen, todo = set(), ['gpytoolbox']
    while todo:
        name = todo.pop()
        if name in seen or name not in proj.modules:
            continue
        seen.add(name)
        if '.' in name:
            todo.append(name.rsplit('.', 1)[0])
        m = proj.modules[name]
        for n, g in toplevel_imports(m.tree.body):
            mods = [a.name for a in n.names] if isinstance(n, ast.Import) else [proj.resolve_from(m, n)]
            for x in mods:
                res.count('rule_instances')
                todo.append(x)
                if isinstance(n, ast.ImportFrom):
                    todo += [f'{x}.{a.name}' for a in n.names]
                rootm = x.split('.')[0]
                if rootm == 'gpytoolbox':
                    own = x in proj.modules
                    if not own and not g:
                        res.add(f'C05|{m.name}|{x}', f'imports {x}, which is not in the package', m.rel, n.lineno, m.name)
                    elif isinstance(n, ast.ImportFrom) and own:
                        for a in n.names:
                            if a.name != '*' and f'{x}.{a.name}' not in proj.modules and not defines(proj, x, a.name) and not g:
                                res.add(f'C05|{m.name}|{x}.{a.name}', f'imports {a.name}, which {x} does not define', m.rel, n.lineno,
                                        m.name)
                    continue
                if g or rootm in std or rootm in req:
                    continue
                res.add(f'C05|{m.name}|{rootm}', f'importing gpytoolbox requires {x}, which is neither in the standard library nor a '
                        f'declared requirement', m.rel, n.lineno, m.name)
    res.cov['modules_executed_by_import'] = len(seen)
    if len(seen) < 80:
        raise AnalysisBroken('import graph collapsed')

    def f(pr, r):
        return nat_events(r)
    for c, v, d in sweep(proj, f, only=lambda c: c.name not in NATIVE_OK, res=res):
        res.count('rule_instances')
        for name, file, line, fn in d:
            res.add(f'C05|pure|{c.name}|{name}', f'gpytoolbox.{c.name} works without the compiled extension but now loads {name}', file,
                    line, fn)
    byid = {(c.name, c.id.partition('/')[2]): c for c in configs()}
    for name, cid, opt in PURE:
        c = byid.get((name, cid))
        if c is None:
            raise AnalysisBroken(f'configuration {name}/{cid} missing')
        for variant in ('base', 'open', 'full'):
            r = run(proj, c, variant, override={k: const(x) for k, x in opt.items()})
            res.count('rule_instances')
            for nm, file, line, fn in nat_events(r):
                res.add(f'C05|option|{name}|{opt}|{nm}', f'gpytoolbox.{name} with {opt} selects the pure Python implementation but loads '
                        f'{nm}', file, line, fn)
    # every lazy import of the extension reports ImportError
    for q, (m, node) in sorted(proj.functions.items()):
        for t in ast.walk(node):
            if isinstance(t, (ast.ImportFrom, ast.Import)):
                nm = (t.module or '') if isinstance(t, ast.ImportFrom) else t.names[0].name
                if nm.split('.')[0] in (CORE_EXT, COPYLEFT_EXT):
                    res.count('lazy_native_imports')
    res.assumptions.append('install_requires in setup.py lists the available third-party packages')


def defines(proj, modname, name, depth=0):
    m = proj.modules.get(modname)
    if m is None or depth > 6:
        return False
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
            return True
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
            return True
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if (a.asname or a.name.split('.')[0]) == name:
                    return True
                if a.name == '*':
                    return True
    return name == '__version__' or any(isinstance(n, ast.FunctionDef) and n.name == '__getattr__' for n in m.tree.body)


# ------------------------------------------------------------------ C09
# public entry -> binding -> for each position the parameters the native argument is computed from
CONTRACT = {
    'approximate_hausdorff_distance': {'_hausdorff_distance_cpp_impl': 'v1 f1 v2 f2'},
    'biharmonic_energy': {'_curved_hessian_intrinsic_cpp_impl': 'V+F F'},
    'biharmonic_energy_intrinsic': {'_curved_hessian_intrinsic_cpp_impl': 'l_sq F'},
    'copyleft.do_meshes_intersect': {'_do_meshes_intersect_cpp_impl': 'V1 F1 V2 F2'},
    'copyleft.mesh_boolean': {'_mesh_difference_cpp_impl': 'V1 F1 V2 F2', '_mesh_intersection_cpp_impl': 'V1 F1 V2 F2',
                              '_mesh_union_cpp_impl': 'V1 F1 V2 F2'},
    'copyleft.lazy_cage': {'_offset_surface_cpp_impl': 'V F - grid_size', '_decimate_cpp_impl': 'V+F V+F num_faces -',
                           '_do_meshes_intersect_cpp_impl': '- - V F'},
    'swept_volume': {'_swept_volume_impl': 'V F rotations+translations+scales eps num_seeds verbose',
                     '_decimate_cpp_impl': 'V+F V+F num_faces -'},
    'decimate': {'_decimate_cpp_impl': 'V F num_faces method'},
    'dual_contouring_of_signed_distance_data': {'_dcsdd_cpp_impl': 'S GV nx ny nz isovalue outer_iters inner_iters hermite_update mu '
                                                'dc_weight svd_threshold new_hermite_pos_weight new_face_pos_weight '
                                                'new_hermite_normal_weight batch_size verbose'},
    'fast_winding_number': {'_fast_winding_number_cpp_impl': 'V F Q'},
    'winding_number': {'_fast_winding_number_cpp_impl': 'V F O'},
    'signed_distance': {'_fast_winding_number_cpp_impl': 'V F Q', '_point_mesh_squared_distance_cpp_impl': 'V F Q'},
    'unsigned_distance': {'_point_mesh_squared_distance_cpp_impl': 'V F Q'},
    'squared_distance': {'_point_mesh_squared_distance_cpp_impl': 'V F P'},
    'fast_winding_number_precompute': {'_FastWindingNumberBVH_cpp_impl': 'V F order',
                                       '_FastWindingNumberBVH_cpp_impl.winding_number': 'Q accuracy_scale'},
    'squared_distance_precompute': {'_AABBTree_cpp_impl': 'V F', '_AABBTree_cpp_impl.squared_distance': 'P'},
    'ray_mesh_intersect_precompute': {'_RayMeshIntersector_cpp_impl': 'V F',
                                      '_RayMeshIntersector_cpp_impl.intersect': 'origins directions'},
    'in_element_aabb': {'_in_element_aabb_cpp_impl': 'queries V F'},
    'marching_cubes': {'_marching_cubes_cpp_impl': 'S GV nx ny nz isovalue'},
    'offset_surface': {'_offset_surface_cpp_impl': 'V F iso grid_size'},
    'particle_swarm': {'_particle_swarm_cpp_impl': '- lb ub n_particles max_iter momentum phi verbose topology'},
    'matryoshka': {'_AABBTree_cpp_impl': 'V F', '_FastWindingNumberBVH_cpp_impl': 'V F -', '_RayMeshIntersector_cpp_impl': 'V F',
                   '_particle_swarm_cpp_impl': '- V V n_particles max_iter - - verbose -'},
    'point_cloud_to_mesh': {'_point_cloud_to_mesh_cpp_impl': 'P N psr_screening_weight psr_depth psr_outer_boundary_type - verbose'},
    'ray_mesh_intersect': {'_ray_mesh_intersect_cpp_impl': 'cam_pos cam_dir V F'},
    'reach_for_the_arcs': {'_outside_points_from_rasterization_cpp_impl': 'U S rng_seed rasterization_resolution tol - parallel '
                           'force_cpu verbose',
                           '_locally_make_feasible_cpp_impl': 'U S U+S batch_size rng_seed n_local_searches local_search_iters tol '
                           'clamp_value parallel verbose',
                           '_fine_tune_point_cloud_iter_cpp_impl': 'U S U+S U+S U+S U+S U+S batch_size max_points_per_sphere rng_seed '
                           'n_local_searches local_search_iters local_search_t tol clamp_value parallel verbose',
                           '_point_cloud_to_mesh_cpp_impl': 'U+S U+S screening_weight - - - -'},
    'reach_for_the_spheres': {'_remesh_botsch_cpp_impl': 'V F remesh_iterations h - - -'},
    'reach_for_the_spheres_iteration': {'_remesh_botsch_cpp_impl': 'V F - h - - -'},
    'read_mesh': {'_read_obj_cpp_impl': 'file return_UV return_N', '_read_ply_cpp_impl': 'file', '_read_stl_cpp_impl': 'file'},
    'write_mesh': {'_write_obj_cpp_impl': 'file V F UV Ft N Fn', '_write_ply_cpp_impl': 'file V F N C binary',
                   '_write_stl_cpp_impl': 'file V F binary'},
    'remesh_botsch': {'_remesh_botsch_cpp_impl': 'V F i h feature feature_edges project'},
    'upper_envelope': {'_upper_envelope_cpp_impl': 'V T D'},
}
CONTRACT['copyleft.swept_volume'] = CONTRACT['swept_volume']


def ctype_kind(t):
    t = t.replace('const', '').replace('&', '').strip()
    if 'function' in t:
        return 'fn'
    if re.search(r'MatrixXi|VectorXi|MatI\b|uint8_t', t):
        return 'imat'
    if re.search(r'MatrixX[df]|VectorX[df]|\bMat\b', t):
        return 'fmat'
    if t in ('int', 'size_t', 'long', 'unsigned', 'unsigned int', 'Int'):
        return 'int'
    if t in ('double', 'float', 'Real'):
        return 'float'
    if t == 'bool':
        return 'bool'
    if 'string' in t:
        return 'str'
    return None


EXACT = {'float': 'float64', 'double': 'float64', 'f8': 'float64', 'd': 'float64', 'float_': 'float64', 'int': 'int64', 'int_': 'int64',
         'i8': 'int64', 'intc': 'int32', 'i4': 'int32', 'single': 'float32', 'f4': 'float32', 'ubyte': 'uint8', 'longlong': 'int64'}


def element_type(t):
    """Element type of an Eigen::Ref parameter: it refers to the caller's memory, so pybind11 converts nothing."""
    if 'EigenDRef' not in t or re.search(r'<\s*const\b', t):
        return None
    for pat, nm in ((r'uint8_t', 'uint8'), (r'(Matrix|Vector)Xi\b', 'int32'), (r'(Matrix|Vector)Xd\b', 'float64'), (r'(Matrix|Vector)Xf\b', 'float32')):
        if re.search(pat, t):
            return nm
    return None


def element_problem(t, a):
    want = element_type(t)
    if want is None or a.kind != 'num' or a.sp or a.shape == ():
        return None
    got = a.ex('dtn')
    if isinstance(got, tuple) and got[1] == a.sym:
        nm = EXACT.get(got[0], got[0])
        if nm in ('float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint32', 'uint64', 'bool', 'bool_') and nm != want:
            return f'converted to {nm}, not to {want}'
    elif got is None and T.rev[a.sym][0] == 'param' and a.roots:
        return f'passed on as the caller supplied it, without the conversion to {want} the reference parameter needs'
    return None


def arg_problem(kind, a):
    """Definite type mismatch between a C++ parameter and an abstract argument."""
    if kind is None:
        return None
    if a.kind == 'none':
        return None if kind == 'fn' else 'None'
    isarr = a.kind == 'num' and (a.shape is None or len(a.shape) > 0)
    scalar = a.kind == 'num' and a.shape == ()
    if kind == 'imat' and isarr and a.dt in ('f', 'c'):
        return 'a floating point array'
    if kind == 'fmat' and isarr and a.dt == 'c':
        return 'a complex array'
    if kind in ('imat', 'fmat') and a.kind in ('str', 'func', 'dict'):
        return 'a ' + a.kind
    if kind in ('imat', 'fmat') and a.kind == 'num' and a.sp:
        return 'a sparse matrix'
    if kind == 'int' and scalar and a.dt in ('f', 'c'):
        return 'a float'
    if kind in ('int', 'float', 'bool') and (a.kind in ('str', 'func', 'dict', 'list') or a.kind == 'num' and a.shape is not None
                                             and len(a.shape) > 1):
        return 'a ' + ('string' if a.kind == 'str' else 'matrix' if a.kind == 'num' else a.kind)
    if kind == 'str' and a.kind in ('num', 'func', 'list', 'dict'):
        return 'not a string'
    if kind == 'fn' and a.kind in ('num', 'str', 'list', 'dict'):
        return 'not callable'
    return None


def hook_for(cpp):
    """Native results with the arity the C++ source returns, so that unpacking is checked."""
    def hook(I, st, name, args, kw, n, sym):
        b = cpp.get(name)
        if not b:
            return None
        from ..values import udeps
        d = udeps(list(args) + list(kw.values()))
        return tup([top(deps=d, sym=T.mk('natres', sym, i), extra={'notnone': True}) for i in range(b)])
    return hook


def c09(proj, res, tier):
    cpp = Cpp(proj.repo)
    tg = cpp.cmake()
    if len(cpp.bindings) < 25:
        raise AnalysisBroken('only %d bindings found in the C++ sources' % len(cpp.bindings))
    # every registrar is declared, called and compiled
    for ext, corefile in ((CORE_EXT, 'src/cpp/gpytoolbox_bindings_core.cpp'), (COPYLEFT_EXT, 'src/cpp/gpytoolbox_bindings_copyleft_core.cpp')):
        core = cpp.files.get(corefile)
        if core is None:
            raise AnalysisBroken(corefile + ' is missing')
        called = set(re.findall(r'\b(\w+)\s*\(\s*m\s*\)\s*;', core))
        for fn, (rel, names) in cpp.registrars.items():
            for nm in names:
                cpp.bindings[nm].__dict__.setdefault('ext', set())
                if fn in called and os.path.normpath(rel) in tg.get(ext, {}).get('src', []):
                    cpp.bindings[nm].ext.add(ext)
        for fn in called:
            res.count('rule_instances')
            if fn not in cpp.registrars:
                res.add(f'C09|registrar|{fn}', f'{corefile} calls {fn}, which no source defines', corefile, 0, fn)
            elif os.path.normpath(cpp.registrars[fn][0]) not in tg.get(ext, {}).get('src', []):
                res.add(f'C09|cmake|{fn}', f'{fn} is registered in {ext} but its source is not compiled into it', 'CMakeLists.txt', 0, fn)
    rets = {nm: b.ret for nm, b in cpp.bindings.items() if b.ret}

    def f(pr, r):
        out = []
        for e in r.events:
            w = (e.mod.rel if e.mod else '', getattr(e.node, 'lineno', 0), e.qual.replace(':', '.'))
            if e.kind == 'native_import' and e.info['name'].count('.') == 1:
                out.append(('import', e.info['name'], None, w))
            elif e.kind in ('native_call', 'native_method'):
                nm = e.info['name'] + ('.' + e.info['method'] if e.kind == 'native_method' else '')
                if e.kind == 'native_method' and e.info['name'] not in ('_AABBTree_cpp_impl', '_FastWindingNumberBVH_cpp_impl',
                                                                        '_RayMeshIntersector_cpp_impl'):
                    continue
                args, kw = e.info['vals'][:2]
                b = cpp.bindings.get(e.info['name'])
                ent = None
                if b is not None:
                    if e.kind == 'native_method':
                        if e.info['method'] not in b.methods:
                            out.append(('bad', nm, f'the bound class has no method {e.info["method"]}', w))
                            continue
                        ent = b.methods[e.info['method']]
                    elif b.init is not None:
                        ent = b.init
                    elif b.params is not None:
                        ent = (b.params, b.argnames, b.defaults, b.ret)
                starred = isinstance(e.node, ast.Call) and (any(isinstance(a, ast.Starred) for a in e.node.args)
                                                            or any(k.arg is None for k in e.node.keywords))
                placed = {}
                if ent is not None and not starred:
                    ps, an, dflt, _ = ent
                    n = len(args) + len(kw)
                    if n > len(ps) or n < len(ps) - dflt:
                        out.append(('bad', nm, f'called with {n} arguments, the C++ side takes {len(ps)}', w))
                        continue
                    for k in kw:
                        if an is None or k not in an:
                            out.append(('bad', nm, f'keyword {k} is not declared with py::arg', w))
                    for i, a in enumerate(args):
                        placed[i] = a
                    for k, a in kw.items():
                        if an and k in an:
                            i = an.index(k)
                            if i in placed:
                                out.append(('bad', nm, f'argument {k} given twice', w))
                            placed[i] = a
                    for i, a in placed.items():
                        p = arg_problem(ctype_kind(ps[i][0]), a) or element_problem(ps[i][0], a)
                        if p:
                            out.append(('bad', nm, f'argument {i + 1} ({ps[i][1]}: {ps[i][0]}) is {p}', w))
                    if an is not None and len(an) == len(ps):
                        for i, (x, y) in enumerate(zip(an, [q[1] for q in ps])):
                            if y and x != y and y in an:
                                out.append(('bad', nm, f'py::arg {x} names C++ parameter {y}', w))
                out.append(('call', nm, [(i, sorted(a.deps)) for i, a in sorted(placed.items())], w))
        for e in r.events:
            if e.kind == 'unpack_mismatch':
                out.append(('unpack', '', f'unpacks {e.info["got"]} values into {e.info["want"]} names',
                            (e.mod.rel, e.node.lineno, e.qual.replace(':', '.'))))
        return {'ev': out, 'params': [k for k, _ in r.cfg.params], 'variant': r.variant}
    seen = set()
    called = {}
    for c, v, d in sweep(proj, f, res=res, native=hook_for(rets)):
        for kind, nm, x, w in d['ev']:
            if kind == 'import':
                ext, b = nm.split('.')
                seen.add(b)
                res.count('rule_instances')
                bd = cpp.bindings.get(b)
                if bd is None:
                    res.add(f'C09|import|{b}', f'imports {b}, which no C++ source binds', *w)
                elif ext not in getattr(bd, 'ext', ()):
                    res.add(f'C09|import|{nm}', f'imports {b} from {ext}, but it is not registered and compiled there', *w)
            elif kind == 'bad':
                res.add(f'C09|{c.name}|{nm}|{x}', f'call of {nm}: {x} (reached from gpytoolbox.{c.name}, configuration {c.id}/{v})', *w)
            elif kind == 'unpack':
                res.add(f'C09|{w[2]}|unpack', f'{x} (reached from gpytoolbox.{c.name})', *w)
            elif kind == 'call':
                res.count('native_call_sites_checked')
                seen.add(nm.split('.')[0])
                called.setdefault(c.name, set()).add(nm)
                want = CONTRACT.get(c.name, {}).get(nm)
                if want is None or v != 'full':
                    continue
                toks = want.split()
                given = {k for k, t in c.params if not t.startswith('=') and t != 'N'}
                for i, deps in x:
                    if i >= len(toks) or toks[i] == '-':
                        continue
                    res.count('rule_instances')
                    miss = [p for p in toks[i].split('+') if p not in deps and p in given]
                    if miss:
                        res.add(f'C09|{c.name}|{nm}|arg{i}', f'argument {i + 1} of {nm} must be computed from {", ".join(miss)} of '
                                f'gpytoolbox.{c.name} but is computed from {", ".join(deps) or "constants"}', *w)
    for pub, want in CONTRACT.items():
        for nm in want:
            if nm not in called.get(pub, ()):
                res.unanalysed.append(f'{pub}: no call of {nm} found')
    if len(res.unanalysed) > 12:
        raise AnalysisBroken('native calls vanished: ' + '; '.join(res.unanalysed[:4]))
    res.cov['bindings_in_cpp'] = len(cpp.bindings)
    res.cov['bindings_reached_from_python'] = len(seen)
    res.samples = sorted(seen)[:8]
    res.assumptions.append('pybind11 converts arguments by position and py::arg name; the C++ bodies are not analysed beyond their signatures')
