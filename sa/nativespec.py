"""What the native routines are assumed to return: kinds, sizes, units and frames of their results in terms of
their arguments.  The C++ sources are not analysed beyond their signatures, so the checks decide the Python code
around them under the assumption that each routine is a geometric one: scaling (moving) its declared geometric
arguments together scales (moves) its results.

Argument and result letters are those of specs.py; `r2`/`c0` are the rows/columns of argument 2/0."""
from fractions import Fraction
from .terms import T, Poly
from .values import V, tup, top, udeps
from .drive import facets

SPEC = {
    '_decimate_cpp_impl': ('p i k k', 'p(?,c0) i(?,c1) i(?) i(?)'),
    '_remesh_botsch_cpp_impl': ('p i k f^1 i i b', 'p(?,3) i(?,3)'),
    '_offset_surface_cpp_impl': ('p i f^1 k', 'p(?,3) i(?,3)'),
    '_marching_cubes_cpp_impl': ('v p k k k f^1', 'p(?,3) i(?,3)'),
    '_mesh_union_cpp_impl': ('p i p i', 'p(?,3) i(?,3)'),
    '_mesh_intersection_cpp_impl': ('p i p i', 'p(?,3) i(?,3)'),
    '_mesh_difference_cpp_impl': ('p i p i', 'p(?,3) i(?,3)'),
    '_swept_volume_impl': ('o', 'o(?,3) i(?,3)'),
    '_point_mesh_squared_distance_cpp_impl': ('p i p', 'a(r2)^2~0 i(r2) p(r2,c0)'),
    '_fast_winding_number_cpp_impl': ('p i p', 'x(r2)'),
    '_hausdorff_distance_cpp_impl': ('p i p i', 'v()'),
    '_in_element_aabb_cpp_impl': ('p p i', 'i(r0)'),
    '_ray_mesh_intersect_cpp_impl': ('p v p i', 'x(r0) i(r0) x(r0,3)'),
    '_particle_swarm_cpp_impl': ('o', 'o(r1) o()'),
    '_upper_envelope_cpp_impl': ('p i x', 'p(?,3) i(?,4) i(?,c2)'),
    '_dcsdd_cpp_impl': ('v p k k k f^1', 'p(?,3) i(?,4)'),
    '_point_cloud_to_mesh_cpp_impl': ('p x', 'p(?,c0) i(?,c0)'),
    '_outside_points_from_rasterization_cpp_impl': ('p v', 'p(?,c0)'),
    '_locally_make_feasible_cpp_impl': ('p v p i', 'p(?,c0) x(?,c0) i(?)'),
    '_fine_tune_point_cloud_iter_cpp_impl': ('p v p i p x i i', 'p(?,c0) x(?,c0) i(?)'),
    '_curved_hessian_intrinsic_cpp_impl': ('a^2 i', 'sp(?,?)^-2~0'),
    '_read_obj_cpp_impl': ('o', 'k o(?,?) i(?,3) o(?,?) i(?,3) o(?,?) i(?,3)'),
    '_read_stl_cpp_impl': ('o', 'k o(?,3) i(?,3)'),
    '_read_ply_cpp_impl': ('o', 'k o(?,?) i(?,?) o(?,?) o(?,?)'),
}


def split(tok):
    """(kind, dims, degree, frame) of a token; `o` says nothing about units or frames."""
    if tok.startswith('o'):
        return 'o', tok[2:-1] if '(' in tok else '', None, None
    if tok in 'kb':
        return tok, '', Fraction(0), 0
    return facets(tok if '(' in tok else tok.replace('^', '()^') if '^' in tok else tok + '()')


def units(args, toks):
    """(scale, shift): the common factor of the degrees of the geometric arguments ('X': they disagree, None: not
    known) and the frame of the points among them ('T': inconsistent)."""
    s, w = '?', '?'
    for a, t in zip(args, toks):
        if t[0] in 'okbi' and '^' not in t:
            continue
        k, _, d, tw = split(t)
        if a.kind not in ('num', 'top'):
            s = w = None
            continue
        if d is not None and s not in (None, 'X') and a.deg != 'Z':
            if a.deg is None:
                s = None
            elif a.deg == 'X':
                s = 'X'
            elif d != 0:
                q = a.deg / d
                s = q if s in ('?', q) else 'X'
            elif a.deg != 0:
                s = 'X'
        if tw is not None and w not in (None, 'T') and a.deg != 'Z':
            if a.tw is None:
                w = None
            elif a.tw == 'T':
                w = 'T'
            elif tw == 'P':
                q = ('P', a.tw[1]) if isinstance(a.tw, tuple) else a.tw
                w = q if w in ('?', q) else 'T'
            elif isinstance(a.tw, tuple):
                w = 'T'
    return s, w


def hook_for(cpp):
    """Native results with the arity of the C++ source and the facets declared above."""
    def hook(I, st, name, args, kw, n, sym):
        b = cpp.get(name)
        sp = SPEC.get(name)
        args = list(args)
        d = udeps(args + list(kw.values()))
        if sp is None or b and b != len(sp[1].split()) or kw:
            if not b:
                return None
            return tup([top(deps=d, sym=T.mk('natres', sym, i), extra={'notnone': True}) for i in range(b)])
        s, w = units(args, sp[0].split())

        def dim(t):
            t = t.strip()
            if t.isdigit():
                return Poly.c(int(t))
            if t[0] in 'rc' and t[1:].isdigit() and int(t[1:]) < len(args):
                a = args[int(t[1:])]
                if a.kind == 'num' and a.shape is not None and len(a.shape) > (t[0] == 'c'):
                    return a.shape[1 if t[0] == 'c' else 0]
            return None
        out = []
        for i, t in enumerate(sp[1].split()):
            k, dims, dg, tw = split(t)
            shape = tuple(dim(x) for x in dims.split(',')) if dims else ()
            if k in ('i', 'k', 'b'):
                dg = tw = 0
            deg = 'X' if s == 'X' and dg is not None else None if dg is None or s is None else Fraction(0) if dg == 0 else \
                None if s == '?' else dg * s
            tf = None if tw is None or w is None else 'T' if w == 'T' else 0 if tw == 0 else \
                None if w == '?' else ('P', w[1], ('v', -1)) if isinstance(w, tuple) else w
            out.append(V('num', shape=shape, deg=deg, tw=tf, dt='i' if k in ('i', 'k') else 'f', row=None, deps=d,
                         sym=T.mk('natres', sym, i), sp=k == 'sp', extra={'notnone': True}))
        if not b and len(out) == 1:
            return out[0].w(sym=sym)
        return tup(out)
    return hook
