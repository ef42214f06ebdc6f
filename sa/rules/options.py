"""C07 options are checked, C15 result structure, C17 every parameter matters, C18 documented defaults."""
import ast
import itertools
import re
from .. import drive
from ..drive import VARIANTS, node_params, outputs
from ..engine import pmap, sweep
from ..project import AnalysisBroken
from ..values import Other, const
from ..cpp import Cpp
from ..nativespec import hook_for
from .facets import facts_of, rettoks, cfg_atoms, DEFAULT_FLAGS_ONLY


def cfg_jobs(make):
    """Jobs from every configuration, with a lookup of the configuration by index."""
    cfgs = drive.configs()
    jobs = []
    for c in cfgs:
        jobs += [(c.i,) + j for j in make(c)]
    return {c.i: c for c in cfgs}, jobs


# ------------------------------------------------------------------ C07
# the option is only looked at when another one has this value
NEEDS = {('read_mesh', 'reader'): {'fmt': 'obj'}, ('write_mesh', 'writer'): {'fmt': 'obj'}}
# values documented for other kinds of input only
UNSUPPORTED = {('subdivide/linemethod', 'method'): ['loop']}
# names bound by an optional import that an except clause of the same try mentions
OPTIONAL_IMPORTS = {'mosek'}


def option_values(c):
    for k, t in c.params:
        m = re.match(r'\??e\{(.*)\}$', t)
        if m:
            yield k, [None if x == '=None' else x for x in m.group(1).split('|')]


def c07(proj, res, tier):
    def make(c):
        out = []
        for k, vals in option_values(c):
            for j, x in enumerate(['<other>'] + vals):
                for v in (('base',) if j == 0 else ('base', 'full')):
                    out.append((k, x, v))
            out += [(k, ('not', x), 'base') for x in UNSUPPORTED.get((c.id, k), ())]
        for k, vals in option_values(c):
            if len([x for x in vals if x is not None]) > 1 and c.ret is not None:
                out.append((k, '<same>', 'base'))
        return out
    byi, jobs = cfg_jobs(make)

    def same(pr, c, k, v):
        """Documented values whose results are the same expressions of the arguments."""
        seen, out = {}, []
        for x in [x for x in dict(option_values(c))[k] if x is not None]:
            ov = {a: const(b) for a, b in NEEDS.get((c.name, k), {}).items()}
            ov[k] = const(x)
            r = drive.run(pr, c, v, override=ov)
            t = tuple(sorted({tuple(o.sym for o in outputs(w)) for _, w in r.returns}))
            if t and t in seen and not any(e.kind == 'budget' for e in r.events):
                out.append((seen[t], x))
            seen.setdefault(t, x)
        return {'same': out, 'w': (r.mod.rel, r.node.lineno, c.name)}

    def job(pr, j):
        c, k, x, v = byi[j[0]], j[1], j[2], j[3]
        if x == '<same>':
            return same(pr, c, k, v)
        ov = {a: const(b) for a, b in NEEDS.get((c.name, k), {}).items()}
        ov[k] = const(Other(k) if x == '<other>' else x[1] if isinstance(x, tuple) else x)
        r = drive.run(pr, c, v, override=ov)
        return {'ret': len(r.returns), 'bud': any(e.kind == 'budget' for e in r.events), 'n': len(r.outs),
                'w': (r.mod.rel, r.node.lineno, c.name),
                'unb': [(e.info['name'], e.mod.rel, e.node.lineno, e.qual.replace(':', '.')) for e in r.events if e.kind == 'unbound']}
    seen, reach = set(), {}
    for (ci, k, x, v), st, d in pmap(proj, job, jobs):
        c = byi[ci]
        if st != 'ok':
            res.unanalysed.append(f'{c.id}/{v} {k}={x}: {d}')
            continue
        res.count('rule_instances')
        if x == '<same>':
            for p, q in d['same']:
                res.add(f'C07|{c.name}|{k}|{p} and {q}', f'gpytoolbox.{c.name} computes the same results for {k}={p!r} and {k}={q!r} '
                        f'(configuration {c.id})', *d['w'])
            continue
        if d['bud']:
            res.unanalysed.append(f'{c.id}/{v} {k}={x}: budget')
        seen.add((c.name, k))
        for nm, file, line, fn in d['unb']:
            if nm not in OPTIONAL_IMPORTS:
                res.add(f'C07|{c.name}|{k}|unbound {nm}', f'{nm} is used before it is assigned when {k}={x!r} is passed to '
                        f'gpytoolbox.{c.name}', file, line, fn)
        if isinstance(x, tuple):
            if d['ret'] and not d['bud']:
                res.add(f'C07|{c.name}|{k}|unsupported {x[1]}', f'gpytoolbox.{c.name} returns a result for {k}={x[1]!r}, which is documented '
                        f'for other kinds of input only (configuration {c.id})', *d['w'])
        elif x == '<other>':
            if d['ret'] and not d['bud']:
                res.add(f'C07|{c.name}|{k}|accepts', f'gpytoolbox.{c.name} returns a result for a value of option "{k}" that no branch '
                        f'recognises (configuration {c.id})', *d['w'])
        else:
            a = reach.setdefault((c.id, k, x), [0, d['w'], c])
            a[0] += d['ret']
    for (cid, k, x), (n, w, c) in reach.items():
        res.count('documented_values')
        if not n:
            res.add(f'C07|{c.name}|{k}|rejects {x}', f'gpytoolbox.{c.name} has no path that returns for the documented value '
                    f'{k}={x!r} (configuration {cid})', *w)
    res.cov['options'] = sorted('.'.join(s) for s in seen)
    if len(seen) < 12:
        raise AnalysisBroken('too few option parameters were analysed')


# ------------------------------------------------------------------ C15
FLAGS = ('output_variance', 'mean_only', 'merge_stl')


def is_ret_flag(k):
    return k.startswith('return_') and k != 'return_negative' or k in FLAGS


def struct(v):
    if v.kind in ('tuple', 'list') and v.items is not None:
        return (v.kind, len(v.items))
    if v.kind == 'list':
        return ('list', '?')
    if v.kind in ('none', 'dict', 'str'):
        return (v.kind, 1)
    if v.kind == 'num':
        return ('one', 1)
    return ('?', '?')


def compatible(a, b):
    return a[0] == '?' or b[0] == '?' or a[0] == b[0] and (a[1] == b[1] or '?' in (a[1], b[1])) \
        or {a[0], b[0]} == {'none', 'one'}


# results without any return flag, and what each flag adds
COUNTS = {
    'connected_components': (1, {'return_face_indices': 1}), 'edges': (1, {'return_boundary_indices': 1,
        'return_interior_indices': 1, 'return_nonmanifold_indices': 1}), 'faces': (1, {'return_boundary_indices': 1,
        'return_interior_indices': 1, 'return_nonmanifold_indices': 1}), 'halfedge_edge_map': (4, {}),
    'triangle_triangle_adjacency': (2, {}), 'cut_edges': (2, {}), 'remove_unreferenced': (2, {'return_maps': 2}),
    'linear_elasticity_stiffness': (5, {}), 'linear_elasticity': (2, {}), 'regular_square_mesh': (2, {}),
    'regular_cube_mesh': (2, {}), 'regular_circle_polyline': (2, {}), 'cone': (2, {}), 'cylinder': (2, {}), 'torus': (2, {}),
    'icosphere': (2, {}), 'edge_edge_distance': (3, {}), 'triangle_triangle_distance': (1, {}),
    'squared_distance_to_element': (2, {}), 'squared_distance': (3, {}), 'unsigned_distance': (3, {}), 'signed_distance': (3, {}),
    'ray_box_intersect': (2, {}), 'ray_triangle_intersect': (3, {}), 'ray_polyline_intersect': (3, {}),
    'ray_mesh_intersect': (3, {}), 'initialize_aabbtree': (7, {}), 'initialize_quadtree': (6, {}), 'in_quadtree': (2, {}),
    'quadtree_boundary': (2, {}), 'quadtree_gradient': (2, {}), 'quadtree_laplacian': (2, {}),
    'bad_quad_mesh_from_quadtree': (3, {}), 'subdivide_quad': (6, {}), 'gaussian_process': (2, {}),
    'gaussian_process_precompute': (2, {}), 'metropolis_hastings': (2, {}), 'particle_swarm': (2, {}),
    'random_points_on_mesh': (1, {'return_indices': 2}),
    'stochastic_poisson_surface_reconstruction': (2, {'output_variance': 1}), 'subdivide': (2, {'return_matrix': 1}),
    'decimate': (4, {}), 'remesh_botsch': (2, {}), 'offset_surface': (2, {}), 'marching_cubes': (2, {}),
    'marching_squares': (2, {}), 'point_cloud_to_mesh': (2, {}), 'upper_envelope': (3, {}), 'swept_volume': (2, {}),
    'copyleft.swept_volume': (2, {}), 'copyleft.do_meshes_intersect': (2, {}), 'copyleft.mesh_boolean': (2, {}),
    'copyleft.lazy_cage': (2, {}), 'reach_for_the_arcs': (2, {'return_point_cloud': 2}),
    'reach_for_the_spheres': (2, {'return_U': 1}), 'read_mesh': (2, {'return_UV': 2, 'return_N': 2, 'return_C': 1}),
    'adjacency_matrix': (1, {}), 'boundary_vertices': (1, {}), 'boundary_edges': (1, {}), 'boundary_faces': (1, {}),
    'halfedges': (1, {}), 'halffaces': (1, {}), 'edge_indices': (1, {}), 'barycenters': (1, {}), 'doublearea': (1, {}),
    'grad': (1, {}), 'massmatrix': (1, {}), 'cotangent_laplacian': (1, {}), 'winding_number': (1, {}),
    'fast_winding_number': (1, {}), 'signed_distance_polygon': (1, {}), 'minimum_distance': (1, {}),
    'approximate_hausdorff_distance': (1, {}), 'min_quad_with_fixed': (1, {}), 'fixed_dof_solve': (1, {}),
    'min_l1_with_fixed': (1, {}), 'fd_grad': (1, {}), 'fd_interpolate': (1, {}), 'per_face_normals': (1, {}),
    'per_vertex_normals': (1, {}), 'biharmonic_energy': (1, {}), 'catmull_rom_spline': (1, {}), 'angle_defect': (1, {}),
    'tip_angles': (1, {}), 'dihedral_angles': (1, {}), 'in_element_aabb': (1, {}), 'colormap': (1, {}), 'read_dmat': (1, {}),
    'squared_exponential_kernel': (1, {}), 'compactly_supported_normal_kernel': (1, {}), 'compactly_supported_normal': (1, {}),
}


def nresults(s):
    if s[0] in ('tuple', 'list'):
        return s[1]
    return '?' if s[0] == '?' else 1


def permuted(c, v, variant, outs, st):
    """Results that do not fit their own description but fit each other's: returned in another order than documented."""
    toks = rettoks(c)
    if len(toks) != len(outs) or len(toks) < 2 or variant != 'base' and c.id in DEFAULT_FLAGS_ONLY:
        return []
    atoms = cfg_atoms(c)

    def bad(i, k):
        return any(x[3] == 'bad' and x[2] in ('shape', 'dt') for x in facts_of(c, st, outs[i], toks[k], k, atoms, frozenset()))
    own = [i for i in range(len(outs)) if bad(i, i)]
    if not 2 <= len(own) <= 4:
        return []
    # any arrangement of the ill-fitting results that fits everywhere
    if any(all(not bad(i, k) for i, k in zip(p, own)) for p in itertools.permutations(own)):
        return own
    return []


def order_of(tup, base, extras):
    """Positions of the base results and of each flag's results in a tuple of terms; None when one is not found or not unique."""
    want = list(base) + [x for e in extras for x in e]
    if len(set(want)) != len(want) or len(want) != len(tup):
        return None
    pos = [tup.index(x) if x in tup else None for x in want]
    return None if None in pos else pos


def c15(proj, res, tier):
    rets = {nm: b.ret for nm, b in Cpp(proj.repo).bindings.items() if b.ret}

    def make(c):
        rf = [k for k, t in c.params if is_ret_flag(k) and t == 'b']
        out = []
        for combo in itertools.product((False, True), repeat=len(rf)):
            for v in VARIANTS:
                out.append((tuple(zip(rf, combo)), v))
        return out
    byi, jobs = cfg_jobs(make)

    def job(pr, j):
        c = byi[j[0]]
        r = drive.run(pr, c, j[2], override={k: const(x) for k, x in j[1]}, native=hook_for(rets))
        perm = []
        if c.ret and not any(x for _, x in j[1]):
            for st, v in r.returns:
                own = permuted(c, v, j[2], outputs(v, len(rettoks(c))), st)
                perm += [own] if own else []
        tups = {tuple(o.sym for o in outputs(v, 9)) for _, v in r.returns}
        return {'s': [struct(v) for _, v in r.returns], 'w': (r.mod.rel, r.node.lineno, c.name), 'perm': perm, 'tups': tups}
    table = {}
    terms = {}
    for (ci, combo, v), st, d in pmap(proj, job, jobs):
        c = byi[ci]
        if st != 'ok':
            res.unanalysed.append(f'{c.id}/{v}: {d}')
            continue
        res.count('rule_instances')
        res.count('return_paths', len(d['s']))
        lit = tuple((k, t == '==True' or t == '=True') for k, t in c.params if is_ret_flag(k) and t.startswith('='))
        flags = tuple(sorted(k for k, x in combo + lit if x))
        known = [s for s in d['s'] if s[0] != '?']
        for a in known[1:]:
            if not compatible(a, known[0]):
                res.add(f'C15|{c.name}|paths', f'gpytoolbox.{c.name} returns {known[0]} on one path and {a} on another for the same flags '
                        f'{list(flags)} (configuration {c.id}/{v})', *d['w'])
        if c.name in COUNTS:
            base, add = COUNTS[c.name]
            want = base + sum(add.get(k, 0) for k in flags)
            res.count('functions_with_declared_count')
            for s in known:
                n = nresults(s)
                if s[0] == 'one' and want == 1 or n == '?':
                    continue
                if n != want and not (want == 1 and s[0] in ('list', 'none')):
                    res.add(f'C15|{c.name}|count', f'gpytoolbox.{c.name} returns {n} results instead of {want} with return flags '
                            f'{list(flags)} (configuration {c.id}/{v})', *d['w'])
        for own in d['perm'][:1]:
            res.add(f'C15|{c.name}|permuted', f'gpytoolbox.{c.name} returns its results {own} in another order than documented '
                    f'(configuration {c.id}/{v})', *d['w'])
        res.count('documented_orders_compared', 1 if c.ret and not any(x for _, x in combo) else 0)
        terms.setdefault((c, v), {})[tuple(k for k, x in combo if x)] = (d['tups'], d['w'])
        for s in known:
            table.setdefault((c.name, flags), set()).add(s)
    # results keep their order when several flags are combined
    for (c, v), t in sorted(terms.items(), key=lambda x: (x[0][0].id, x[0][1])):
        add = COUNTS.get(c.name, (1, {}))[1]
        if () not in t or len(t[()][0]) != 1:
            continue
        base = next(iter(t[()][0]))
        if len(base) == 1 and len(t) > 1 and COUNTS.get(c.name, (1,))[0] != 1:
            continue
        extra = {}
        for f in add:
            got = t.get((f,), (set(), None))[0]
            if len(got) == 1:
                one = next(iter(got))
                if len(one) == len(base) + add[f] and all(x in one for x in base):
                    res.count('flag_orders_compared')
                    rest = [x for x in one if x not in base]
                    if len(rest) != add[f]:
                        continue
                    if list(one[:len(base)]) != list(base):
                        res.add(f'C15|{c.name}|order', f'{f} moves the other results of gpytoolbox.{c.name} (configuration {c.id}/{v})', *t[(f,)][1])
                    else:
                        extra[f] = rest
        for combo, (got, w) in t.items():
            if len(combo) < 2 or len(got) != 1 or any(f not in extra for f in combo):
                continue
            pos = order_of(next(iter(got)), base, [extra[f] for f in add if f in combo])
            if pos is not None:
                res.count('flag_orders_compared')
                if pos != sorted(pos):
                    res.add(f'C15|{c.name}|order', f'gpytoolbox.{c.name} returns its results in another order than documented with the '
                            f'flags {list(combo)} (configuration {c.id}/{v})', *w)
    res.cov['functions'] = len({k[0] for k in table})
    if res.cov['functions'] < 100:
        raise AnalysisBroken('too few functions analysed')


# ------------------------------------------------------------------ C17
NOT_RESULT = {'verbose'}
# documented or accepted parameters that do not influence the results in the analysed configurations: they only
# describe the mesh for interface symmetry, act only through a callback, or reach only a file or a solver setting
EXEMPT = {('doublearea_intrinsic', 'F'), ('tip_angles_intrinsic', 'F'), ('cotangent_weights_intrinsic', 'F'),
          ('min_l1_with_fixed', 'params'), ('random_points_on_mesh', 'color'), ('matryoshka', 'scale_tol'),
          ('reach_for_the_spheres_iteration', 'output_sensitive')}
EXEMPT_FUNCS = {'traverse_aabbtree', 'write_mesh'}
EXEMPT_CFG = {('dec_d0/given', 'F'), ('dec_h1_intrinsic/given', 'F'), ('dec_h1inv_intrinsic/given', 'F'),
              ('gaussian_process/induced', 'lump_K3'), ('gaussian_process/grad', 'compact_kernel'),
              ('gaussian_process', 'lump_K3'), ('gaussian_process', 'compact_kernel'),
              ('gaussian_process_precompute', 'lump_K3'), ('gaussian_process_precompute', 'compact_kernel'),
              ('swept_volume', 'transformations'), ('copyleft.swept_volume', 'transformations'),
              ('swept_volume', 'align_rotations_with_velocity'), ('copyleft.swept_volume', 'align_rotations_with_velocity'),
              ('swept_volume/transf', 'align_rotations_with_velocity'),
              ('copyleft.swept_volume/transf', 'align_rotations_with_velocity')}


def reach_deps(st, v, depth=0, seen=None):
    seen = seen if seen is not None else set()
    g = set(v.deps)
    if depth > 6:
        return g
    for x in v.items or ():
        if hasattr(x, 'deps'):
            g |= reach_deps(st, x, depth + 1, seen)
    if v.elem is not None:
        g |= reach_deps(st, v.elem, depth + 1, seen)
    if v.addr is not None and v.addr not in seen:
        seen.add(v.addr)
        for x in st.heap.get(v.addr, {}).values():
            if hasattr(x, 'deps'):
                g |= reach_deps(st, x, depth + 1, seen)
    return g


def c17(proj, res, tier):
    def f(pr, r):
        g = set()
        for s, v in r.returns:
            g |= s.pcdeps | reach_deps(s, v)
        return {'g': sorted(g), 'n': len(r.returns), 'w': (r.mod.rel, r.node.lineno, r.cfg.name)}
    infl, w, cs = {}, {}, {}
    for c, v, d in sweep(proj, f, res=res):
        if d['n']:
            infl.setdefault(c.id, set()).update(d['g'])
            w[c.id], cs[c.id] = d['w'], c
    for cid, g in sorted(infl.items()):
        c = cs[cid]
        if c.name in EXEMPT_FUNCS:
            continue
        for k, t in c.params:
            if t.startswith('=') or t == 'N' or k in NOT_RESULT or (c.name, k) in EXEMPT or (cid, k) in EXEMPT_CFG:
                continue
            res.count('rule_instances')
            if k not in g:
                res.add(f'C17|{cid}|{k}', f'no result of gpytoolbox.{c.name} depends on its parameter "{k}" (configuration {cid})', *w[cid])
    if res.cov.get('rule_instances', 0) < 400:
        raise AnalysisBroken('too few parameters analysed: %d' % res.cov.get('rule_instances', 0))
    res.assumptions.append('dependence is a may-analysis: a library or native call depends on every argument it receives')


# ------------------------------------------------------------------ C18
DOC = re.compile(r'^\s*([A-Za-z_]\w*(?:\s*,\s*[A-Za-z_]\w*)*)\s*:\s*(.*)$')
DEF = re.compile(r'defaults?(?:\s+is|\s+to|\s*[:=]|\s+value\s+is)?\s*[`]?'
                 r'("[^"]*"|\'[^\']*\'|[-+]?\d[\w.+-]*|True|False|None|true|false)', re.I)


def literal(node):
    try:
        return True, ast.literal_eval(node)
    except Exception:
        return False, None


class Dotted:
    """A default written as a dotted name such as np.inf."""
    def __init__(self, s):
        self.s = s.replace('numpy.', 'np.')

    def __eq__(self, o):
        return isinstance(o, Dotted) and o.s == self.s

    def __repr__(self):
        return self.s


def doc_default(line, strdef=False):
    m = DEF.search(line)
    if not m:
        m = re.search(r'default(?:\s+is|\s*[:=])?\s*`?((?:np|numpy|math)\.(?:inf|pi|nan))\b', line)
        if m:
            return True, Dotted(m.group(1))
        m = re.search(r'default(?:\s+is|\s*[:=])?\s*`?([A-Za-z][\w-]*)`?\s*\)', line)
        if m and strdef:
            return True, m.group(1)
        return False, None
    t = m.group(1).rstrip('.,;)`')
    if re.match(r'\s*[-*/+^(\[]', line[m.end():]):
        return False, None            # an expression, not a literal
    if t.lower() in ('true', 'false'):
        return True, t.lower() == 'true'
    try:
        return True, ast.literal_eval(t)
    except Exception:
        return False, None


def module_literal(m, node):
    """Literal value of a default, also through a module constant assigned exactly once."""
    ok, x = literal(node)
    if ok:
        return ok, x
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id in ('np', 'numpy', 'math'):
        return True, Dotted(ast.unparse(node))
    if isinstance(node, ast.Name):
        got = [n.value for n in ast.walk(m.tree) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
               and any(isinstance(t, ast.Name) and t.id == node.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        if len(got) == 1:
            return module_literal(m, got[0])
    return False, None


def is_none_test(t, name):
    """+1: true when name is None; -1: true when it is not; 0: something else."""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == name \
            and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        return 1 if isinstance(t.ops[0], (ast.Is, ast.Eq)) else -1
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return -is_none_test(t.operand, name) or (1 if isinstance(t.operand, ast.Name) and t.operand.id == name else 0)
    return 0


def substituted(node, name):
    """Expressions assigned when the parameter is None."""
    for s in ast.walk(node):
        if isinstance(s, ast.If):
            k = is_none_test(s.test, name)
            body = s.body if k > 0 else s.orelse if k < 0 else []
            for x in body:
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
                    yield x.value
        if isinstance(s, ast.IfExp):
            k = is_none_test(s.test, name)
            if k:
                yield s.body if k > 0 else s.orelse


def leaves(e):
    return leaves(e.body) + leaves(e.orelse) if isinstance(e, ast.IfExp) else [e]


def substitutes(node, name, val):
    """`if name is None: name = val` (or a conditional expression with that value) in the body."""
    ex = [x for e in substituted(node, name) for x in leaves(e)]
    if ex:
        pars = {a.arg for a in node.args.args + node.args.kwonlyargs} - {name}
        for x in ex:
            ok, y = literal(x)
            if ok and not same(val, y):
                return False
            if isinstance(x, ast.BinOp) and any(isinstance(q, ast.Name) and q.id in pars for q in ast.walk(x)):
                return False          # a literal is documented, but the value varies with another argument
        return True
    for s in ast.walk(node):
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            for e in ast.walk(s.value):
                ok, x = literal(e)
                if ok and x == val:
                    return True
        if isinstance(s, ast.Compare) and any(literal(c)[0] and literal(c)[1] == val for c in s.comparators):
            return True
    return False


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b


def public_callables(proj):
    for name, (m, n) in sorted(proj.public.items()):
        if isinstance(n, ast.ClassDef):
            cd = ast.get_docstring(n) or ''
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and (f.name == '__init__' or not f.name.startswith('_')):
                    yield name + '.' + f.name, m, f, (ast.get_docstring(f) or (cd if f.name == '__init__' else ''))
        else:
            yield name, m, n, ast.get_docstring(n) or ''


def c18(proj, res, tier):
    n = 0
    for name, m, f, doc in public_callables(proj):
        a = f.args
        pos = a.posonlyargs + a.args
        dv = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults)) if a.defaults else {}
        dv.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        pars = {p.arg for p in pos + a.kwonlyargs}
        cut = re.split(r'\n\s*Returns\s*\n', doc)[0]
        for line in cut.split('\n'):
            mm = DOC.match(line)
            if not mm:
                continue
            for p in re.split(r'\s*,\s*', mm.group(1)):
                if p not in pars:
                    continue
                ok, x = doc_default(mm.group(2), p in dv and isinstance(dv[p], ast.Constant) and isinstance(dv[p].value, str))
                if not ok:
                    continue
                if p not in dv:
                    n += 1
                    res.count('rule_instances')
                    res.add(f'C18|{name}|{p}', f'documented default {x!r} of parameter "{p}" of gpytoolbox.{name}, but the parameter '
                            'is required', m.rel, f.lineno, name)
                    continue
                lo, y = module_literal(m, dv[p])
                if not lo:
                    continue
                n += 1
                res.count('rule_instances')
                if same(x, y):
                    continue
                if y is None and substitutes(f, p, x):
                    continue
                res.add(f'C18|{name}|{p}', f'parameter "{p}" of gpytoolbox.{name} defaults to {y!r}; its documentation says {x!r}',
                        m.rel, f.lineno, name)
    if n < 80:
        raise AnalysisBroken('too few documented defaults found: %d' % n)
