"""C10 sizes, C11 scaling, C12 translation, C13 row locality, C19 integer index outputs."""
import re
from fractions import Fraction
from ..terms import T, Poly, alternatives
from ..values import joinv
from ..drive import outputs, facets, parse_poly
from ..npcore import varying
from ..engine import sweep
from ..project import AnalysisBroken
from ..cpp import Cpp
from ..nativespec import hook_for

# configurations whose declared results hold only with every optional flag at its default
# without any usable distance sample there is no point cloud, and None stands for it
MAY_BE_NONE = {'reach_for_the_arcs/2d', 'reach_for_the_arcs/cloud'}
DEFAULT_FLAGS_ONLY = {'connected_components', 'edge_indices', 'remove_unreferenced', 'remove_unreferenced/noV', 'regular_square_mesh/sq',
                      'random_points_on_mesh/3d', 'random_points_on_mesh/line', 'subdivide/tri', 'subdivide/line', 'subdivide/loop',
                      'per_face_normals/3d', 'per_face_normals/2d', 'subdivide/open', 'subdivide/linemethod', 'reach_for_the_arcs/3d', 'reach_for_the_spheres/3d',
                      'read_mesh'}


def where(r):
    return r.mod.rel, r.node.lineno, r.cfg.name


def rettoks(c):
    return c.ret.split() if c.ret else []


def definite(p, cfgatoms):
    """Is this size a polynomial over the declared size atoms only?"""
    return p is not None and all(a in cfgatoms for mono in p.d for a in mono)


def _from_index(i, idx):
    """Is this term built only from the entries of index arguments (views, joins, maxima, plus a constant)?"""
    t = T.rev[i]
    op = t[0]
    if op == 'param':
        return t[1] in idx
    if op in ('item', 'reshape', 'T', 'itemscalar'):
        return _from_index(t[1], idx)
    if op == 'concat':
        return all(_from_index(x, idx) for x in t[2:])
    if op == 'red':
        return t[1] == 'max' and _from_index(t[2], idx)
    if op == 'bin' and t[1] in '+-':
        a, b = t[2], t[3]
        return T.rev[a][0] == 'c' and _from_index(b, idx) or T.rev[b][0] == 'c' and _from_index(a, idx)
    return False


def _mentions(i, what, depth=8):
    t = T.rev[i]
    return i == what or depth > 0 and any(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(T.rev) and x < i
                                          and _mentions(x, what, depth - 1) for x in t[1:])


def _has_op(i, ops, depth=12):
    t = T.rev[i]
    return t[0] in ops or depth > 0 and any(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < i
                                            and _has_op(x, ops, depth - 1) for x in t[1:])


def _maxima(i):
    t = T.rev[i]
    if t[0] == 'red':
        yield i
    for x in t[1:]:
        if isinstance(x, int) and not isinstance(x, bool) and t[0] in ('bin', 'itemscalar'):
            if T.rev[x][0] in ('bin', 'itemscalar', 'red'):
                yield from _maxima(x)


def data_extent(p, c, atoms, st):
    """A size read off the largest entry of an index argument: it is smaller than the declared number of
    vertices whenever the last ones are unreferenced, and no path condition ties the two together."""
    if p is None:
        return False
    idx = {k for k, t in c.params if re.match(r'\??i\(', t)}
    hit = False
    for m in p.d:
        for a in m:
            if a in atoms:
                continue
            mm = re.fullmatch(r'(v|mx|binc)(\d+)', a)
            if not mm:
                return False
            s = int(mm.group(2))
            if mm.group(1) == 'v' and not (list(_maxima(s)) and _from_index(s, idx)):
                return False
            if mm.group(1) == 'mx' and not _from_index(s, idx):
                return False
            if mm.group(1) == 'binc' and not (T.rev[s][0] == 'call' and len(T.rev[s]) == 3 and _from_index(T.rev[s][2], idx)):
                return False
            for f in st.facts:
                if T.rev[f][0] in ('==', '!='):
                    for q in _maxima(s) if mm.group(1) == 'v' else ():
                        if _mentions(f, q):
                            return False
            hit = True
    return hit


def cfg_atoms(c):
    s = set()
    for k, t in c.params:
        s |= set(re.findall(r'[A-Za-z_]\w*', (re.search(r'\(([^)]*)\)', t) or [None, ''])[1]))
        m = re.match(r'\??k:(\w+)', t)
        if m:
            s.add(m.group(1))
        if t in ('k', '?k'):
            s.add('#' + k)
    return s


def degenerate(o, want):
    """A result with a zero dimension where a size was declared: the early exit for empty input."""
    if o.shape is None:
        return False
    return any(d is not None and d.as_int() == 0 for d in o.shape) or o.deg == 'Z' and o.shape == ()


def _zero_of(f, sym):
    """Is fact f `the size (or a length) of sym is zero`?"""
    t = T.rev[f]
    if t[0] != '==' or len(t) != 3:
        return False
    for a, b in ((t[1], t[2]), (t[2], t[1])):
        if T.rev[a][0] == 'c' and T.rev[a][2] in ('0', '0.0'):
            u = T.rev[b]
            if u[0] in ('size', 'len') and u[1] == sym:
                return True
            if u[0] == 'item' and T.rev[u[1]][0] == 'shapeof' and T.rev[u[1]][1] == sym:
                return True
    return False


def known_empty(st, sym):
    """A condition of the path says that sym has no entries (or is missing)."""
    for f in st.facts:
        t = T.rev[f]
        alts = t[1:] if t[0] == 'or' else (f,)
        if any(_zero_of(x, sym) for x in alts) and all(_zero_of(x, sym) or T.rev[x][0] == 'isnone' and T.rev[x][1] == sym
                                                       for x in alts):
            return True
    return False


def free_weight(s):
    """A weight that varies independently of every other one: a column of a random draw, an argument, a regular range."""
    t = T.rev[s]
    if t[0] in ('draw', 'param'):
        return s
    if t[0] == 'ew' and t[1] in ('sqrt', 'exp', 'sin', 'cos') and len(t) == 3:
        return free_weight(t[2])
    if t[0] in ('reshape', 'tile') or t[0] == 'item' and all(T.rev[x][0] in ('slice', 'c') for x in t[2:]):
        u = free_weight(t[1])
        return None if u is None else s if t[0] == 'item' and T.rev[t[1]][0] == 'draw' else u
    return None


def independent(p):
    """The polynomial takes more than one value: no identity between its atoms can make it constant."""
    if any(a.startswith('w!') for a in p.atoms()):
        return len(p.d) == 1 and len(next(iter(p.d))) == 1      # entries that move and entries that do not
    if any(a.startswith('w~') for a in p.atoms()):
        return False
    atoms = sorted(p.atoms())
    if len(atoms) == 1:
        k = [len(m) for m in p.d if m]
        return not (len(k) == 1 and () not in p.d)     # a multiple of one unknown weight may still be a constant
    base = {a: free_weight(int(a[1:])) for a in atoms}
    if None in base.values():
        return False
    # one variable per independent quantity; x and sqrt(x) are powers of the same one
    for b in set(base.values()):
        same = [a for a in atoms if base[a] == b]
        if len(same) > 1:
            q = Poly.atom(f'q{b}')
            how = {a: func_of(int(a[1:])) for a in same}
            if not set(how.values()) <= {'', 'sqrt'}:
                return False
            p = p.subst({a: q if how[a] else q * q for a in same})
    return not p.is_const()


def func_of(s):
    """The function of its free weight that term s is."""
    t = T.rev[s]
    if t[0] == 'ew':
        return t[1] + func_of(t[2])
    return func_of(t[1]) if t[0] in ('reshape', 'tile', 'item') and T.rev[t[1]][0] not in ('draw', 'param') else ''


def facts_of(c, st, o, t, k, atoms, special):
    """Compare one abstract result with one declared result token: [(k, token, facet, verdict, found)]."""
    out = []
    if t.startswith('L[') and t.endswith(']'):
        t = t[2:-1]
        els = list(o.items or ()) + ([o.elem] if o.elem is not None else [])
        o = els[0] if els else None
        for x in els[1:]:
            o = joinv(o, x)
        if o is None:
            return out
    if t in ('o', 'N', '?', 'k', 'b', 'str'):
        return out
    kind, dims, d, w = facets(t)
    if o.kind in ('none', 'str', 'dict') and c.id not in MAY_BE_NONE:
        out.append((k, t, 'shape', 'bad', 'None' if o.kind == 'none' else 'a ' + o.kind))
        return out
    if o.kind not in ('num', 'top'):
        out.append((k, t, 'kind', 'unknown', o.kind))
        return out
    want = tuple(parse_poly(x) for x in dims.split(',')) if dims else ()
    if o.ex('maybe0') and not any(T.rev[f][0] != '==' and _has_op(f, ('lout', 'listcomp')) for f in st.facts):
        # an array made from a list to which nothing may have been appended
        if kind == 'i' and o.ex('maybe0') == 'plain':
            out.append((k, t, 'dt', 'bad', 'a floating-point array when its list is empty'))
        if len(want) >= 2:
            out.append((k, t, 'shape', 'bad', 'a one-dimensional array when its list is empty'))
        return out
    if o.ex('squeezed') and any(b is not None and b.as_int() is None and len(b.d) == 1 for b in want):
        out.append((k, t, 'shape', 'bad', 'an array that loses its axis when its length is one'))
    if degenerate(o, want):
        if o.kind == 'num' and o.shape and len(o.shape) != len(want):
            out.append((k, t, 'shape', 'bad', f'rank {len(o.shape)} (an empty result)'))
        if kind == 'i' and o.kind == 'num' and o.dt is not None:
            out.append((k, t, 'dt', 'ok' if o.dt in 'ib' else 'bad', f'dtype {o.dt}'))
        return out
    # sizes
    if o.shape is None:
        out.append((k, t, 'shape', 'unknown', 'rank'))
    elif len(o.shape) != len(want):
        ok = o.kind == 'num'
        out.append((k, t, 'shape', 'bad' if ok else 'unknown', f'rank {len(o.shape)}'))
    else:
        for a, b in zip(o.shape, want):
            if b is None:
                continue
            alts = [x for _, x in alternatives(a)] if a is not None else []
            if a == b or alts and all(x == b for x in alts):
                out.append((k, t, 'shape', 'ok', ''))
            elif len(alts) > 1 and o.kind == 'num':
                wrong = [x for ch, x in alternatives(a) if x != b and x.atoms() and definite(x, atoms - special)
                         and not any(T.rev[q][0] in ('==', '!=') for q in ch)]
                out.append((k, t, 'shape', 'bad' if wrong else 'unknown', f'size {wrong[0]} on some inputs' if wrong else str(a)))
            elif definite(a, atoms - special) and o.kind == 'num':
                out.append((k, t, 'shape', 'bad', f'({", ".join(map(str, o.shape))})'))
            elif o.kind == 'num' and definite(b, atoms) and data_extent(a, c, atoms, st):
                out.append((k, t, 'shape', 'bad', 'a size read off the largest index in use'))
            else:
                out.append((k, t, 'shape', 'unknown', str(a)))
    empty = known_empty(st, o.sym)
    if c.scale and d is not None and not empty:
        a = o.deg
        vd = 'unknown' if a is None else 'ok' if a == d or a == 'Z' else 'bad'
        out.append((k, t, 'deg', vd, 'not homogeneous' if a == 'X' else f'degree {a}'))
        for x in sorted(o.deps):
            if x.startswith('#scale'):
                out.append((k, t, 'deg', 'bad', 'a choice made by comparing against the fixed threshold ' + x[7:]))
    if c.trans and w is not None and not empty:
        a = o.tw
        if a is None:
            vd = 'unknown'
        elif a == 'N':
            vd = 'ok'
        elif varying(a):
            vd = 'bad' if independent(a[1]) else 'unknown'
        elif w == 'P':
            vd = 'ok' if isinstance(a, tuple) and abs(a[1] - 1) < 1e-12 else 'bad'
        else:
            vd = 'ok' if a == w else 'bad'
        out.append((k, t, 'tw', vd, 'depends on the absolute position' if a == 'T' else
                    'does not move with the frame' if a == 0 else
                    'is a combination of points whose weights do not add up to one' if varying(a) else
                    f'moves {a[1]} times with the frame' if isinstance(a, tuple) else str(a)))
        if '#frame' in o.deps:
            out.append((k, t, 'tw', 'bad', 'a choice made by comparing absolute positions'))
    if kind == 'i':
        a = o.dt
        out.append((k, t, 'dt', 'unknown' if a is None else 'ok' if a in 'ib' else 'bad', f'dtype {a}'))
    return out


def classify(r):
    """[(result index, token, facet, verdict, found)] for every return path."""
    c = r.cfg
    if r.variant != 'base' and c.id in DEFAULT_FLAGS_ONLY:
        return []
    toks = rettoks(c)
    atoms = cfg_atoms(c)
    out = []
    for st, v in r.returns:
        os_ = outputs(v, len(toks))
        special = {T.rev[f][1] for f in st.facts if T.rev[f][0] == 'sizefact'}   # sizes constrained on this path
        if len(os_) != len(toks):
            if toks:
                out.append((-1, c.ret, 'arity', 'bad' if v.kind in ('tuple', 'num') else 'unknown', f'{len(os_)} results'))
            continue
        for k, (o, t) in enumerate(zip(os_, toks)):
            out += facts_of(c, st, o, t, k, atoms, special)
    return out


def facet_check(name, facet, what):
    def f(pr, r):
        got = [x for x in classify(r) if x[2] == facet or facet == 'shape' and x[2] == 'arity']
        return {'w': where(r), 'v': got, 'n': len(r.returns)}

    def check(proj, res, tier):
        unk = []
        rets = {nm: b.ret for nm, b in Cpp(proj.repo).bindings.items() if b.ret}
        for c, v, d in sweep(proj, f, only=lambda c: c.ret is not None, res=res, native=hook_for(rets)):
            res.count('return_paths', d['n'])
            for k, t, fc, vd, found in d['v']:
                res.count('rule_instances')
                res.count('facts_' + vd)
                if vd == 'bad':
                    thr = '|' + found.rsplit(' ', 1)[1] if 'fixed threshold' in found else ''
                    res.add(f'{name}|{c.id}|{k}{thr}', f'result {k} of gpytoolbox.{c.name} is declared {what(t)} but the code computes {found} '
                            f'(configuration {c.id}/{v})', *d['w'])
                elif vd == 'unknown':
                    unk.append(f'{c.id}[{k}]')
        res.cov['undecided'] = sorted(set(unk))
        if res.cov.get('facts_ok', 0) < 60:
            raise AnalysisBroken('too few facts established: %d' % res.cov.get('facts_ok', 0))
    return check


c10 = facet_check('C10', 'shape', lambda t: 'with sizes ' + t)
c11 = facet_check('C11', 'deg', lambda t: 'with units ' + str(facets(t)[2]) + ' (power of length)')
c12 = facet_check('C12', 'tw', lambda t: 'to move with the frame' if facets(t)[3] == 'P' else 'translation invariant')
c19 = facet_check('C19', 'dt', lambda t: 'integer')


# ------------------------------------------------------------------ C13 one row in, one row out
def c13(proj, res, tier):
    def f(pr, r):
        out = []
        for st, v in r.returns:
            os_ = outputs(v, max(r.cfg.rows) + 1)
            for k in r.cfg.rows:
                o = os_[k] if k < len(os_) else None
                if o is None or degenerate(o, None):
                    continue
                row = o.row
                vd = 'ok' if row == ('A', 0) or row == 'I' and False else 'bad' if row == 'M' else 'unknown'
                out.append((k, vd, str(row)))
        return {'w': where(r), 'v': out}
    unk = []
    for c, v, d in sweep(proj, f, only=lambda c: c.batch is not None and c.rows, res=res, track_rows=True):
        for k, vd, row in d['v']:
            res.count('rule_instances')
            res.count('facts_' + vd)
            if vd == 'bad':
                res.add(f'C13|{c.id}|{k}', f'row i of result {k} of gpytoolbox.{c.name} depends on other rows of {c.batch} '
                        f'(configuration {c.id}/{v})', *d['w'])
            elif vd == 'unknown':
                unk.append(f'{c.id}[{k}]:{row}')
    res.cov['undecided'] = sorted(set(unk))
