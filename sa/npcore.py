"""Transfer functions for array arithmetic, comparison, indexing and attributes."""
import ast
import re
from fractions import Fraction
from .terms import T, Poly
from .values import (V, NOC, Other, E0, const, tup, top, intv, udeps, uroots, joinv, jdeg, jtw, mixed, mix_tw, displaced, jrow,
                     jshape, jdt, new_aid)

F0, F1 = Fraction(0), Fraction(1)
ONE = Poly.c(1)


def isnum(v):
    return v.kind == 'num'


def dim(o, k):
    """Term/value of o.shape[k]."""
    p = o.shape[k] if o.shape is not None and -len(o.shape) <= k < len(o.shape) else None
    return p


def is_sc(v):
    return v.kind == 'num' and v.shape == ()


def cnum(v):
    """Plain numeric constant or None."""
    c = v.const
    if c is NOC or isinstance(c, (bool, Other, str, tuple)) or c is None:
        return None
    if isinstance(c, (int, float)):
        return c
    return None


def prom(a, b):
    order = 'bimfc'
    if a in (None,) or b in (None,):
        return 'f' if 'f' in (a, b) and not ('c' in (a, b)) else None
    return order[max(order.index(a), order.index(b))]


def bshape(a, b):
    """Broadcast of two shapes -> (shape, definite_mismatch)."""
    if a is None or b is None:
        return None, False
    if len(a) < len(b):
        a, b = b, a
    off = len(a) - len(b)
    out = list(a[:off])
    bad = False
    for x, y in zip(a[off:], b):
        if x == y and x is not None:
            out.append(x)
        elif x is not None and x == ONE:
            out.append(y)
        elif y is not None and y == ONE:
            out.append(x)
        elif x is None or y is None:
            # an axis of known length > 1 fixes the result
            k = x if x is not None else y
            i = k.as_int() if k is not None else None
            out.append(k if i is not None and i > 1 else None)
        else:
            i, j = x.as_int(), y.as_int()
            if i is not None and j is not None:
                bad = True
                out.append(None)
            else:
                out.append(x if i is not None and i > 1 else y if j is not None and j > 1 else None)
    return tuple(out), bad


DECLARED = re.compile(r'[a-zA-Z]+$')


def clash(st, x, y, one=True):
    """The two lengths are different polynomials of sizes the caller may choose independently."""
    if x is None or y is None or x == y or one and (x == ONE or y == ONE):
        return False
    at = {a for p in (x, y) for m in p.d for a in m}
    if not at or not all(DECLARED.match(a) for a in at):
        return False
    return not any(T.mk('sizefact', a) in st.facts for a in at)


def generic_clash(I, st, n, a, b, op):
    if a is None or b is None:
        return
    for x, y in zip(reversed(a), reversed(b)):
        if clash(st, x, y):
            I.ev('shape_generic', n, st, a=str(a), b=str(b), op=op)
            return


def shift_row(r, k):
    """Axis of a batch facet counted in a result with k extra leading axes."""
    if isinstance(r, tuple) and r[0] in ('A', 'S'):
        return (r[0], r[1] + k) + r[2:]
    return r


def rowb(a, b):
    """Batch facet of an elementwise result."""
    ra, rb = a.row, b.row
    if a.shape is not None and b.shape is not None:
        n = max(len(a.shape), len(b.shape))
        ra = shift_row(ra, n - len(a.shape))
        rb = shift_row(rb, n - len(b.shape))
    elif ra != rb and not (ra == 'I' or rb == 'I'):
        if isinstance(ra, tuple) and isinstance(rb, tuple):
            return None
    return jrow2(ra, rb)


def jrow2(ra, rb):
    if ra == rb:
        return ra
    if ra is None or rb is None:
        return 'M' if 'M' in (ra, rb) else None
    if ra == 'I':
        return rb
    if rb == 'I':
        return ra
    if 'M' in (ra, rb):
        return 'M'
    return None


def mk(op, vs, *args, **kw):
    kw.setdefault('deps', udeps(vs))
    if 'sym' not in kw:
        kw['sym'] = T.mk(op, *[v.sym for v in vs], *args)
    kind = kw.pop('kind', 'num')
    return V(kind, **kw)


# ------------------------------------------------------------------ facets
def add_deg(I, st, a, b, node, what):
    x, y = a.deg, b.deg
    if x == y:
        return x
    if x == 'Z':
        return y
    if y == 'Z':
        return x
    if x == 'X' or y == 'X':
        return 'X'
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        I.ev('deg_clash', node, st, what=what, a=str(x), b=str(y))
        return 'X'
    return None


def mul_deg(x, y, s=1):
    if x == 'X' or y == 'X':
        return 'X'
    if x == 'Z' or y == 'Z':
        return 'Z' if not (y == 'Z' and s < 0) else None
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x + s * y
    return None


# A coefficient of the translation weight that is a polynomial in invariant weights is kept as a Poly over the terms
# of the weights ('w<term>'), so that affine combinations (weights that add up to one) are recognised.
ELEMENTWISE = ('bin', 'neg', 'ew')


def varying(t):
    return isinstance(t, tuple) and isinstance(t[1], Poly)


def plain_tw(v):
    """Forget a coefficient that differs from entry to entry: most operations would not preserve it."""
    return v.w(tw=None) if varying(v.tw) else v.w(tw=0) if v.tw == 'N' else v


def blur_tw(v):
    """The same for the argument of a function that is not affine."""
    return v.w(tw='T') if weighted(v.tw) else plain_tw(v)


def weighted(t):
    """A position times a product of weights."""
    return varying(t) and len(t[1].d) == 1 and not any(a[1] in '!~' for a in t[1].atoms())


def padded(t):
    """Points with invariant columns appended: every row moves by the same vector."""
    return varying(t) and all(a.startswith('w~') for a in t[1].atoms())


def pad_tw(its):
    """Translation weight of points and invariant columns side by side."""
    c = next(x.tw[1] for x in its if x.tw != 0)
    segs = [(0 if x.tw == 0 else 1, x.shape[-1].as_int() if x.shape[-1] is not None else None) for x in its]
    return ('P', Poly.atom('w~' + ','.join(f'{k}.{n}' for k, n in segs)) * coef(c), ('v', -1))


def pad_index(o, ix):
    """What is left of it after an index."""
    used = [i for i in ix if i.kind != 'none']
    if o.shape is None or any(i.const is Ellipsis for i in ix) or len(used) > len(o.shape) or any(is_boolish(i) for i in ix):
        return None
    if len(used) < len(o.shape) or T.rev[used[-1].sym] == ('slice', NONE_T, NONE_T, NONE_T):
        return o.tw if ix and ix[-1].kind != 'none' else None
    k = cnum(used[-1])
    n = o.shape[-1].as_int() if o.shape[-1] is not None else None
    if isinstance(k, int) and len(o.tw[1].d) == 1 and len(o.tw[1].atoms()) == 1:
        if k < 0 and n is not None:
            k += n
        for seg in next(iter(o.tw[1].atoms()))[2:].split(','):
            w, m = seg.split('.')
            if m == 'None' or k < 0:
                return None
            if k < int(m):
                return 0 if w == '0' else ('P', next(iter(o.tw[1].d.values())), o.tw[2])
            k -= int(m)
    return None


def coef(p):
    return p if isinstance(p, Poly) else Poly({(): Fraction(p)} if p else {})


def coef_tw(p, comp):
    d = {k: v for k, v in p.d.items() if abs(v) > Fraction(1, 10**14)}
    if not d:
        return 0
    if max(len(k) for k in d) > 8 or len(d) > 40:
        return None
    p = Poly(d)
    return ('P', p.const() if p.is_const() else p, comp)


def term_poly(s, depth=24):
    """The value of term s as a polynomial in opaque weights."""
    t = T.rev[s]
    if depth <= 0:
        return Poly.atom(f'w{s}')
    if t[0] == 'c':
        try:
            x = float(t[2])
            if x == x and abs(x) < 1e30:
                return Poly({(): Fraction(x)} if x else {})
        except ValueError:
            pass
        return Poly.atom(f'w{s}')
    if t[0] == 'neg':
        return -term_poly(t[1], depth - 1)
    if t[0] == 'bin' and t[1] in ('+', '-', '*'):
        a, b = term_poly(t[2], depth - 1), term_poly(t[3], depth - 1)
        if len(a.d) * len(b.d) > 200:
            return Poly.atom(f'w{s}')
        return a + b if t[1] == '+' else a - b if t[1] == '-' else a * b
    if t[0] == 'bin' and t[1] == '/':
        b = term_poly(t[3], depth - 1)
        if b.is_const() and b.const():
            return term_poly(t[2], depth - 1).divc(b.const())
    if t[0] == 'bin' and t[1] == '**':
        k = term_poly(t[3], depth - 1).as_int()
        if k is not None and 0 <= k <= 4:
            a, r = term_poly(t[2], depth - 1), Poly.c(1)
            for _ in range(k):
                r = r * a
            return r
    # pure rearrangements distribute over the arithmetic below them
    wrap = None
    if t[0] == 'item' and isinstance(t[1], int) and len(t) > 2:
        u = T.rev[t[1]]
        col = [T.rev[x] for x in t[2:]]
        if u[0] == 'stack' and len(t) > 3 and col[-1][0] == 'c' and col[-1][1] == 'int' and all(c[0] == 'slice' for c in col[:-1]):
            k = int(col[-1][2])
            if u[1] in (-1, len(col) - 1) and 0 <= k < len(u) - 2 and all(set(T.rev[x]) == {'slice', NONE_T} for x in t[2:-1]):
                return term_poly(u[2 + k], depth - 1)
        if all(set(c) == {'slice', NONE_T} or c[0] == 'c' and c[1] == 'NoneType' for c in col):
            wrap = 1
    elif t[0] in ('reshape', 'tile') and isinstance(t[1], int):
        wrap = 1
    elif t[0] == 'call' and t[1] in ('numpy.tile', 'numpy.expand_dims', 'numpy.reshape', 'numpy.broadcast_to') and len(t) > 2 and isinstance(t[2], int):
        wrap = 2
    if wrap is not None:
        inner = T.rev[t[wrap]]
        if inner[0] in ('bin', 'neg', 'item', 'reshape', 'c', 'stack', 'call'):
            p = term_poly(t[wrap], depth - 1)
            if p != Poly.atom(f'w{t[wrap]}'):
                m = {}
                for a in p.atoms():
                    k = int(a[1:])
                    m[a] = Poly.atom(f'w{T.mk(*[k if i == wrap else x for i, x in enumerate(t)])}')
                return p.subst(m)
    return Poly.atom(f'w{s}')


NONE_T = T.mk('c', 'NoneType', 'None')


def neg_tw(t):
    if isinstance(t, tuple):
        return ('P', -t[1], t[2])
    return t


def comp_b(a, b):
    """Component labels of two aligned operands, or None when they cannot be compared."""
    return a if a == b else None


def add_tw(a, b, sign):
    x, y = a.tw, b.tw
    if x is None or y is None:
        return None
    if x == 'N' or y == 'N':
        return 'N'
    if x == 0 and y == 0:
        return 0
    if x == 'T' or y == 'T':
        return 'T' if x != y and not varying(x) and not varying(y) else None
    if x == 0:
        return neg_tw(y) if sign < 0 else y
    if y == 0:
        return x
    if varying(x) or varying(y):
        if x[2] != y[2]:
            return None
        c = coef(y[1])
        return coef_tw(coef(x[1]) + (c if sign > 0 else -c), x[2])
    if x[2] == y[2]:
        c = x[1] + sign * y[1]
        return 0 if c == 0 else ('P', c, x[2])
    if x[2][0] == 'c' and y[2][0] == 'c' and isinstance(x[2][1], int) and isinstance(y[2][1], int):
        return 'T'
    return None


def mul_tw(a, b):
    x, y = a.tw, b.tw
    if x is None or y is None:
        return None
    if x == 'N' or y == 'N':
        return 'N' if x in (0, 'N') and y in (0, 'N') else None
    if x == 0 and y == 0:
        return 0
    for p, q, qv in ((x, y, b), (y, x, a)):
        if isinstance(p, tuple) and q == 0:
            c = cnum(qv)
            if c is not None and c == c and abs(c) < 1e300:
                c = Fraction(c)
                return 0 if c == 0 else coef_tw(p[1] * Poly({(): c}), p[2]) if varying(p) else ('P', p[1] * c, p[2])
            return coef_tw(coef(p[1]) * term_poly(qv.sym), p[2]) if qv.kind == 'num' and not qv.sp else None
        if p == 'T' and q == 0 and qv.deg != 'Z':
            c = cnum(qv)
            return 'T' if c is None or c == c and 0 < abs(c) < 1e300 else 0 if c == 0 else None
    if isinstance(x, tuple) and isinstance(y, tuple):
        return None if varying(x) or varying(y) else 'T'      # quadratic in the translation
    return None


def ratio_tw(t, q):
    """Weighted sum divided by q: affine when q is a multiple of the sum of the weights."""
    for k, v in q.d.items():
        c = t[1].d.get(k, Fraction(0)) / v
        return coef_tw(Poly({(): c}), t[2]) if c and t[1] == q * Poly({(): c}) else None
    return None


def nonlin_tw(*vs):
    """Translation weight of a non-affine function of its arguments."""
    if any(varying(v.tw) for v in vs):
        return nonlin_tw(*[blur_tw(v) for v in vs])      # a position times an unknown weight is still a position
    if any(v.tw == 'N' for v in vs):
        vs = [plain_tw(v) for v in vs]
    if all(v.tw == 0 for v in vs):
        return 0
    if any(v.tw is None for v in vs):
        return None
    n = sum(1 for v in vs if v.tw != 0)
    return 'T' if n == 1 else None


def rows_of(vs):
    r = 'I'
    for v in vs:
        r = jrow2(r, v.row)
    return r


# ------------------------------------------------------------------ unary
def unary(I, st, op, v, n):
    c = cnum(v)
    if c is not None:
        if isinstance(op, ast.USub):
            return const(-c).w(deps=v.deps)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert) and isinstance(c, int):
            return const(~c).w(deps=v.deps)
    if v.kind not in ('num', 'top'):
        return top(deps=v.deps, sym=T.mk('unary', type(op).__name__, v.sym))
    if isinstance(op, ast.UAdd):
        return v.w(roots=E0, base=(), aid=None)
    if isinstance(op, ast.USub):
        return v.w(roots=E0, base=(), aid=None, const=NOC, poly=-v.poly if v.poly is not None else None,
                   tw=neg_tw(v.tw), sym=negsym(v.sym), extra=None if v.ex('lit') else v.extra)
    return v.w(roots=E0, base=(), aid=None, const=NOC, poly=None, sym=T.mk('inv', v.sym),
               extra=None)


def negsym(s):
    t = T.rev[s]
    return t[1] if t[0] == 'neg' else T.mk('neg', s)


OPN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**',
       'MatMult': '@', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'LShift': '<<', 'RShift': '>>'}


def binsym(o, a, b):
    if o in ('+', '*', '&', '|', '^'):
        if b < a:
            a, b = b, a
    return T.mk('bin', o, a, b)


def spj(*vs):
    """Sparse result of sparse operands: 'm' for the matrix classes, True when matrix or array is not known."""
    if not all(v.sp for v in vs):
        return False
    return 'm' if all(v.sp == 'm' for v in vs) else True


# optional arguments that only make sense together: the test of one also decides about the other
TOGETHER = {'bb', 'bc', 'k', 'y', 'A', 'b', 'UV', 'Ft'}


def omitted(st, v):
    """An optional argument nobody has looked at yet: it may still be None."""
    t = T.rev[v.sym]
    if not v.ex('maybe_none') or t[0] != 'param' or st.facts.get(T.mk('isnone', v.sym)) is False:
        return False
    return t[1] not in TOGETHER


def binop(I, st, op, a, b, n):
    o = OPN[type(op).__name__]
    deps = a.deps | b.deps
    if a.kind == 'str' or b.kind == 'str':
        if o == '+' and isinstance(a.const, str) and isinstance(b.const, str):
            return const(a.const + b.const).w(deps=deps)
        return V('str', deps=deps, sym=T.mk('bin', o, a.sym, b.sym))
    if a.kind in ('list', 'tuple') and o in '+*':
        if o == '+' and b.kind == a.kind:
            if a.items is not None and b.items is not None:
                return tup(a.items + b.items, a.kind).w(deps=deps)
            return V(a.kind, elem=I.list_elem(a, b), deps=deps, roots=a.roots | b.roots,
                     sym=T.mk('bin', o, a.sym, b.sym), aid=new_aid() if a.kind == 'list' else None)
        c = cnum(b)
        if o == '*' and a.items is not None and isinstance(c, int) and 0 <= c * len(a.items) <= 64:
            return tup(a.items * c, a.kind).w(deps=deps)
        if o == '*':
            return V(a.kind, elem=I.list_elem(a), deps=deps, roots=a.roots, sym=T.mk('bin', o, a.sym, b.sym),
                     aid=new_aid() if a.kind == 'list' else None)
    if b.kind in ('list', 'tuple') and o == '*' and a.kind == 'num' and a.shape == ():
        return binop(I, st, op, b, a, n)
    if a.kind == 'none' or b.kind == 'none':
        I.ev('none_arith', n, st)
        return top(deps=deps, sym=T.mk('bin', o, a.sym, b.sym))
    if omitted(st, a) or omitted(st, b):
        I.ev('none_arith', n, st, open=True)
    if a.kind == 'inst' or b.kind == 'inst':
        return top(deps=deps, sym=T.mk('bin', o, a.sym, b.sym))
    if a.kind in ('tuple', 'list'):
        a = as_array(I, st, a, n)
    if b.kind in ('tuple', 'list'):
        b = as_array(I, st, b, n)
    ca, cb = cnum(a), cnum(b)
    if ca is not None and cb is not None:
        try:
            r = {'+': lambda: ca + cb, '-': lambda: ca - cb, '*': lambda: ca * cb, '/': lambda: ca / cb,
                 '//': lambda: ca // cb, '%': lambda: ca % cb, '**': lambda: ca ** cb if abs(cb) < 64 else None,
                 '&': lambda: ca & cb, '|': lambda: ca | cb, '^': lambda: ca ^ cb}.get(o, lambda: None)()
            if isinstance(r, (int, float)) and not isinstance(r, bool) and abs(r) < 1e200:
                return const(r).w(deps=deps)
        except Exception:
            pass
    if o == '@':
        return matmul(I, st, a, b, n)
    if o not in ('+', '-', '*', '/'):
        a, b = blur_tw(a), blur_tw(b)
    kind = 'num' if a.kind == 'num' and b.kind == 'num' else 'top'
    shape, bad = bshape(a.shape, b.shape)
    if bad and not (a.sp or b.sp):
        I.ev('shape_mismatch', n, st, a=str(a.shape), b=str(b.shape), op=o)
    elif (not (a.sp or b.sp) or a.sp and b.sp and o in '+-') and kind == 'num':
        generic_clash(I, st, n, a.shape, b.shape, o)
    if kind == 'top' and (a.shape is None or b.shape is None):
        shape = None
    sp = False
    if a.sp or b.sp:
        if o in ('+', '-', '&', '|'):
            sp = spj(a, b)
        elif o == '*':
            if (a.sp == 'm' and not is_sc(b) or b.sp == 'm' and not is_sc(a)) and a.kind == b.kind == 'num':
                return matmul(I, st, a, b, n)
            if a.sp and b.sp or a.sp and not is_sc(b) or b.sp and not is_sc(a):
                # sparse matrices multiply as matrices with *, sparse arrays elementwise
                return mk('bin', [a, b], '*', kind='top', deps=deps, deg=mul_deg(a.deg, b.deg),
                          sym=T.mk('bin', '*m', a.sym, b.sym), sp=spj(a, b))
            sp = a.sp or b.sp
        elif o == '/':
            sp = a.sp
    poly = None
    if a.poly is not None and b.poly is not None and shape == ():
        if o == '+':
            poly = a.poly + b.poly
        elif o == '-':
            poly = a.poly - b.poly
        elif o == '*':
            poly = a.poly * b.poly
        elif o == '//' and b.poly.as_int():
            q = a.poly.divc(b.poly.as_int())
            if all(v.denominator == 1 for v in q.d.values()):
                poly = q
        elif o == '**' and b.poly.as_int() is not None and 0 <= b.poly.as_int() <= 4:
            poly = Poly.c(1)
            for _ in range(b.poly.as_int()):
                poly = poly * a.poly
    if poly is not None and poly.as_int() is not None:
        return const(poly.as_int()).w(deps=deps)
    dt = None
    tw = None
    if o in ('+', '-'):
        deg = add_deg(I, st, a, b, n, o)
        tw = add_tw(a, b, 1 if o == '+' else -1)
        dt = prom(a.dt, b.dt)
    elif o == '*':
        deg = mul_deg(a.deg, b.deg)
        if cnum(a) == 0 or cnum(b) == 0:
            deg = 'Z'
        tw = mul_tw(a, b)
        dt = prom(a.dt, b.dt)
    elif o == '/':
        deg = mul_deg(a.deg, b.deg, -1)
        if a.tw == 0 and b.tw == 0:
            tw = 0
        elif a.tw == 'N' or b.tw == 'N':
            tw = 'N' if a.tw == 'N' and b.tw == 0 else 0 if b.tw == 'N' and a.tw == 0 else None
        elif isinstance(a.tw, tuple) and cnum(b):
            tw = ('P', a.tw[1].divc(cnum(b)) if varying(a.tw) else a.tw[1] / Fraction(cnum(b)), a.tw[2])
        elif varying(a.tw) and b.tw == 0 and b.kind == 'num':
            tw = ratio_tw(a.tw, term_poly(b.sym))
        elif varying(b.tw):
            tw = None
        elif (isinstance(b.tw, tuple) or b.tw == 'T') and a.tw == 0 and a.deg != 'Z' and cnum(a) != 0:
            tw = 'T'
        elif a.tw == 'T' and b.tw == 0:
            tw = 'T'
        dt = 'c' if 'c' in (a.dt, b.dt) else 'f' if a.dt and b.dt else ('f' if 'c' not in (a.dt, b.dt) and a.dt and b.dt else None)
    elif o in ('//', '%'):
        deg = mul_deg(a.deg, b.deg, -1) if o == '//' else add_deg(I, st, a, b, n, o)
        tw = nonlin_tw(a, b)
        dt = prom(a.dt, b.dt)
    elif o == '**':
        e = cnum(b)
        if a.deg == 'X':
            deg = 'X'
        elif e is not None and a.deg == 'Z':
            deg = 'Z' if e > 0 else None
        elif e is not None and isinstance(a.deg, Fraction):
            deg = a.deg * Fraction(e).limit_denominator(64)
        elif a.deg == F0 and b.deg in (F0, 'Z'):
            deg = F0
        elif isinstance(b.deg, Fraction) and b.deg != 0:
            deg = 'X'
        else:
            deg = None
        tw = nonlin_tw(a, b)
        if e is not None and e < 0 and isinstance(e, int) and a.dt == 'i' and a.kind == 'num' and a.shape:
            I.ev('int_store_float', n, st, why='a negative power')
        dt = prom(a.dt, b.dt) if not (e is not None and e < 0) else 'f'
    else:
        deg = 'X' if 'X' in (a.deg, b.deg) else (F0 if a.deg in (F0, 'Z') and b.deg in (F0, 'Z') else None)
        tw = 0 if a.tw == 0 and b.tw == 0 else ('T' if 'T' in (a.tw, b.tw) else None)
        dt = prom(a.dt, b.dt)
    if deg == 'Z' and o == '/' and b.deg == 'Z':
        deg = None
    row = rowb(a, b)
    v = V(kind, shape=shape, deg=deg, tw=tw, row=row, dt=dt, deps=deps, poly=poly, sp=sp,
          sym=binsym(o, a.sym, b.sym))
    if kind == 'top' and (a.ex('scalar') or is_sc(a)) and (b.ex('scalar') or is_sc(b)):
        v = v.wex(scalar=True)
    if kind == 'num' and (a.ex('squeezed') and b.shape == () or b.ex('squeezed') and a.shape == ()):
        v = v.wex(squeezed=True)
    if tw == 'T' and (o == '**' or any(p.tw == 'T' and p.ex('curved') and q.tw == 0 for p, q in ((a, b), (b, a)))):
        v = v.wex(curved=True)
    if o == '*' and tw is None and kind == 'num' and v.shape and not sp:
        for p, q in ((a, b), (b, a)):
            if isinstance(p.tw, tuple) and p.tw[2] == ('v', -1) and p.ndim == len(v.shape) and q.ndim and directional(q) \
                    and q.shape[-1] == p.shape[-1] and p.shape[-1] is not None and p.shape[-1] != ONE:
                v = v.wex(along=True)      # summed over its last axis: the position along a direction
    return v


def as_array(I, st, v, n):
    from . import npmodel
    return npmodel.to_array(I, st, v, n)


def matmul(I, st, a, b, n):
    a, b = plain_tw(a), plain_tw(b)
    deg = mul_deg(a.deg, b.deg)
    shape = None
    if a.shape is not None and b.shape is not None and a.shape and b.shape:
        x, y = a.shape, b.shape
        ka = x[-1]
        kb = y[-2] if len(y) >= 2 else y[0]
        if ka is not None and kb is not None and ka.as_int() is not None and kb.as_int() is not None and ka != kb:
            I.ev('shape_mismatch', n, st, a=str(x), b=str(y), op='@')
        elif a.kind == b.kind == 'num' and clash(st, ka, kb, False):
            I.ev('shape_generic', n, st, a=str(x), b=str(y), op='@')
        if len(x) <= 2 and len(y) <= 2:
            shape = (x[:-1] if len(x) == 2 else ()) + (y[1:] if len(y) == 2 else ())
        elif len(x) == len(y):
            bs, _ = bshape(x[:-2], y[:-2])
            shape = bs + (x[-2], y[-1]) if bs is not None else None
    row = None
    if a.row == 'I' and b.row == 'I':
        row = 'I'
    elif a.row == ('A', 0) and b.row == 'I' and a.ndim == 2:
        row = ('A', 0)
    elif isinstance(a.row, tuple) and a.row[0] == 'R' and b.row in ('I', a.row):
        row = a.row
    elif isinstance(b.row, tuple) and b.row[0] == 'R' and a.row in ('I', b.row):
        row = b.row
    elif a.row == 'I' and b.row == ('A', 1) and b.ndim == 2 and a.ndim == 2:
        row = ('A', 1)
    tw = 0 if a.tw == 0 and b.tw == 0 else gram_tw(a, b)
    kind = 'num' if a.kind == 'num' and b.kind == 'num' else 'top'
    return V(kind, shape=shape, deg=deg, tw=tw, row=row, dt=prom(a.dt, b.dt), deps=a.deps | b.deps,
             sp=spj(a, b), sym=T.mk('bin', '@', a.sym, b.sym))


def gram_tw(a, b):
    """Products of two positions are quadratic in the translation."""
    if isinstance(a.tw, tuple) and isinstance(b.tw, tuple) and a.tw[2] == b.tw[2] == ('v', -1) \
            and (a.ndim == 1 and b.ndim == 1 or b.ndim == 1 and a.ndim == 2):
        return 'T'
    # the component of a position along a direction
    if isinstance(a.tw, tuple) and a.tw[2] == ('v', -1) and a.ndim in (1, 2) and directional(b):
        return 'T'
    if isinstance(b.tw, tuple) and b.tw[2] == ('v', -1) and b.ndim == 1 and directional(a):
        return 'T'
    return None


def directional(v):
    """An invariant quantity computed from the arguments that is not the constant zero."""
    return v.tw == 0 and v.deg != 'Z' and v.kind == 'num' and not v.sp and cnum(v) is None and bool(v.deps) \
        and v.dt == 'f' and T.rev[v.sym][0] in ('cross', 'bin', 'item', 'neg', 'param', 'red')


# ------------------------------------------------------------------ comparison
FRAME = frozenset(['#frame'])


def scale_mark(*vs):
    """Dependence marker of a comparison between quantities of different units; names the constant if there is one."""
    for v in vs:
        c = cnum(v)
        if c is not None:
            return frozenset([f'#scale:{c!r}'])
    return frozenset(['#scale:'])


def compare(I, st, op, a, b, n):
    a, b = blur_tw(a), blur_tw(b)
    deps = a.deps | b.deps
    nm = type(op).__name__
    if a.kind in ('tuple', 'list') and b.kind in ('tuple', 'list') and a.items is not None and b.items is not None \
            and nm in ('Eq', 'NotEq'):
        if len(a.items) != len(b.items):
            return const(nm == 'NotEq').w(deps=deps)
        rs = [I.compare_one(ast.Eq(), x, y, n, st) for x, y in zip(a.items, b.items)]
        if all(r.const is True for r in rs):
            return const(nm == 'Eq').w(deps=deps)
        if any(r.const is False for r in rs):
            return const(nm == 'NotEq').w(deps=deps)
    if nm in ('Is', 'IsNot', 'In', 'NotIn'):
        s = T.mk('is', *sorted((a.sym, b.sym)))
        if nm == 'IsNot':
            s = T.mk('not', s)
        return V('num', shape=(), dt='b', deg=F0, tw=0, deps=deps, sym=s)
    # size arithmetic
    if a.poly is not None and b.poly is not None:
        d = a.poly - b.poly
        r = decide(d, nm)
        if r is not None:
            return const(r).w(deps=deps)
    neg = False
    if nm == 'Eq' or nm == 'NotEq':
        x, y = sorted((a.sym, b.sym))
        s = T.mk('==', x, y)
        neg = nm == 'NotEq'
    else:
        x, y = a.sym, b.sym
        if nm in ('Gt', 'GtE'):
            x, y = y, x
        s = T.mk('<' if nm in ('Lt', 'Gt') else '<=', x, y)
        if nm in ('LtE', 'GtE'):
            # for sizes and scalars: x <= y is not (y < x)
            if is_sc(a) and is_sc(b) and a.dt == 'i' and b.dt == 'i':
                s = T.mk('<', y, x)
                neg = True
    scal = (is_sc(a) or a.ex('scalar') or a.kind == 'str') and (is_sc(b) or b.ex('scalar') or b.kind == 'str')
    fs = st.facts.get(s)
    if scal and fs is not None:
        return const(fs != neg).w(deps=deps)
    if nm in ('Eq', 'NotEq') and scal and a.sym == b.sym and a.dt == 'i':
        return const(nm == 'Eq').w(deps=deps)
    shape, bad = bshape(a.shape, b.shape)
    kind = 'num' if (a.kind in ('num', 'str') and b.kind in ('num', 'str')) else 'top'
    if a.kind == 'str' and b.kind == 'str':
        shape = ()
    x, y = a.deg, b.deg
    if x == 'X' or y == 'X':
        deg = 'X'
    elif x == 'Z' or y == 'Z' or x == y:
        deg = F0 if x is not None and y is not None else None
    elif isinstance(x, Fraction) and isinstance(y, Fraction):
        # a comparison against a constant of another degree is a threshold in length units
        deg = 'X'
        if not _inf(a) and not _inf(b):
            I.ev('deg_clash', n, st, what=nm, a=str(x), b=str(y))
    else:
        deg = None
    if a.kind == b.kind == 'num' and not (a.sp or b.sp):
        generic_clash(I, st, n, a.shape, b.shape, nm)
    t = add_tw(a, b, -1)
    tw = 0 if t == 0 else ('T' if t == 'T' or isinstance(t, tuple) else None)
    if _inf(a) or _inf(b):
        deg = F0 if deg != 'X' else deg
        tw = 0
    s2 = T.mk('not', s) if neg else s
    if deg == 'X':
        deps = deps | scale_mark(b, a)
    if t is None and (a.ex('along') and b.tw == 0 or b.ex('along') and a.tw == 0):
        tw = 'T'
    if tw == 'T':
        deps = deps | FRAME
    v = V(kind, shape=shape, dt='b', deg=deg, tw=tw, row=rowb(a, b), deps=deps, sym=s2)
    if kind == 'top' and scal:
        v = v.wex(scalar=True)
    return v


def _inf(v):
    c = cnum(v)
    return c is not None and (c != c or c in (float('inf'), float('-inf')))


def decide(d, nm):
    """Decide d (op) 0 for a size polynomial whose atoms are >= 0."""
    c = d.as_int()
    if c is not None:
        return {'Eq': c == 0, 'NotEq': c != 0, 'Lt': c < 0, 'LtE': c <= 0, 'Gt': c > 0, 'GtE': c >= 0}.get(nm)
    if all(v >= 0 for v in d.d.values()):
        k = d.const()
        if k > 0:
            return {'Eq': False, 'NotEq': True, 'Lt': False, 'LtE': False, 'Gt': True, 'GtE': True}.get(nm)
        if nm == 'GtE':
            return True
        if nm == 'Lt':
            return False
    if all(v <= 0 for v in d.d.values()):
        k = d.const()
        if k < 0:
            return {'Eq': False, 'NotEq': True, 'Lt': True, 'LtE': True, 'Gt': False, 'GtE': False}.get(nm)
        if nm == 'LtE':
            return True
        if nm == 'Gt':
            return False
    return None


# ------------------------------------------------------------------ attributes
def shape_val(o, k):
    p = o.shape[k]
    if p is not None:
        return intv(p, deps=E0 if p.is_const() else o.deps)
    return V('num', shape=(), dt='i', deg=F0, tw=0, row='I', deps=o.deps, sym=T.mk('dim', o.sym, k),
             poly=Poly.atom(f'd{o.sym}_{k}'))


def attribute(I, st, o, attr, n):
    if o.kind in ('num', 'top'):
        if attr in ('shape', 'ndim', 'size'):
            o = o.w(deps=I.sizedeps(o.deps))
        if attr == 'shape':
            if o.ex('finfo'):
                return None
            if o.shape is not None:
                return tup([shape_val(o, k) for k in range(len(o.shape))]).w(sym=T.mk('shapeof', o.sym))
            return V('tuple', deps=o.deps, sym=T.mk('shapeof', o.sym), extra={'shapeof': o},
                     elem=V('num', shape=(), dt='i', deg=F0, tw=0, row='I', deps=o.deps))
        if attr == 'ndim':
            if o.shape is not None:
                return const(len(o.shape)).w(deps=o.deps)
            return V('num', shape=(), dt='i', deg=F0, tw=0, row='I', deps=o.deps, sym=T.mk('ndim', o.sym))
        if attr == 'size':
            if o.shape is not None and all(p is not None for p in o.shape) and not o.sp:
                p = ONE
                for x in o.shape:
                    p = p * x
                return intv(p, deps=o.deps)
            return V('num', shape=(), dt='i', deg=F0, tw=0, row='I', deps=o.deps, sym=T.mk('size', o.sym))
        if attr == 'nnz':
            return V('num', shape=(), dt='i', deg=F0, tw=0, row=None, deps=o.deps, sym=T.mk('nnz', o.sym))
        if attr == 'T':
            return transpose(o)
        if attr == 'real':
            return o.w(sym=T.mk('real', o.sym), dt='f', base=o.base + ((o.aid,) if o.aid else ()), aid=None)
        if attr in ('data', 'indices', 'indptr', 'row', 'col', 'flat', 'A', 'imag') and (o.sp or o.kind == 'top' or attr in ('flat', 'imag')):
            return o.w(shape=None, kind='top', sym=T.mk('attr', o.sym, attr), sp=False, dt='i' if attr in ('indices', 'indptr', 'row', 'col') else o.dt,
                       base=o.base + ((o.aid,) if o.aid else ()), aid=None, row=None, const=NOC, poly=None)
        if attr in ('dtype',):
            return V('ext', path='dtype', sym=T.mk('dtype', o.sym), extra={'dt': o.dt})
        if o.ex('finfo') and attr in ('eps', 'max', 'min', 'tiny', 'resolution', 'bits', 'dtype', 'smallest_normal'):
            return V('num', shape=(), dt=o.ex('finfo'), deg=F0, tw=0, row='I', sym=T.mk('finfo', o.sym, attr))
        if o.kind == 'top' and o.ex('nsp') and attr in o.ex('nsp'):
            return o.ex('nsp')[attr]
    return None


def transpose(o):
    row = o.row
    if isinstance(row, tuple) and row[0] in ('A', 'S'):
        row = (row[0], len(o.shape) - 1 - row[1]) + row[2:] if o.shape is not None else None
    tw = o.tw
    if isinstance(tw, tuple) and tw[2][0] == 'v':
        tw = ('P', tw[1], ('v', -1 - (len(o.shape) + tw[2][1]) - 0)) if o.shape is not None else None
        if tw is not None and o.shape is not None:
            # axis counted from the end
            pos = len(o.shape) + o.tw[2][1]
            new = len(o.shape) - 1 - pos
            tw = ('P', o.tw[1], ('v', new - len(o.shape)))
    t = T.rev[o.sym]
    sym = o.sym if o.shape is not None and len(o.shape) < 2 else (t[1] if t[0] == 'T' else T.mk('T', o.sym))
    return o.w(shape=tuple(reversed(o.shape)) if o.shape is not None else None, row=row, tw=tw, sym=sym,
               base=o.base + ((o.aid,) if o.aid else ()), aid=None, const=NOC, extra=None)


# ------------------------------------------------------------------ indexing
def index_list(idx):
    if idx.kind == 'tuple' and idx.items is not None:
        return list(idx.items)
    return [idx]


def slice_len(L, s):
    """Length of a slice of an axis of length L (Poly or None)."""
    lo, hi, step = s.items
    def cv(v):
        if v.kind == 'none':
            return None, True
        if v.poly is not None:
            return v.poly, True
        return None, False
    st = cnum(step) if step.kind != 'none' else 1
    a, oka = cv(lo)
    b, okb = cv(hi)
    if not (oka and okb) or st is None:
        return None
    if a is None and b is None:
        if st in (1, -1):
            return L
        if L is not None and L.as_int() is not None and st > 0:
            return Poly.c((L.as_int() + st - 1) // st)
        if L is not None and isinstance(st, int) and st > 1:
            q = L.divc(st)
            return q if all(v.denominator == 1 for v in q.d.values()) else None
        return None
    if st != 1:
        if isinstance(st, int) and st > 1:
            n = slice_len(L, s.w(items=(lo, hi, const(None))))
            if n is not None and n.as_int() is not None:
                return Poly.c((n.as_int() + st - 1) // st)
            q = n.divc(st) if n is not None else None
            return q if q is not None and all(v.denominator == 1 for v in q.d.values()) else None
        return None
    if a is None:
        a = Poly.c(0)
    ai = a.as_int()
    if b is None:
        if L is None:
            return None
        if ai is not None and ai < 0:
            return Poly.c(-ai) if L.as_int() is None or L.as_int() >= -ai else L
        Li = L.as_int()
        if Li is not None and ai is not None:
            return Poly.c(max(0, Li - ai))
        return L - a
    bi = b.as_int()
    if bi is not None and bi < 0:
        if L is None:
            return None
        b = L + b
    if ai is not None and ai < 0:
        return None
    if L is not None and L.as_int() is not None and b.as_int() is not None:
        b = Poly.c(min(L.as_int(), b.as_int()))
        if ai is not None:
            return Poly.c(max(0, b.as_int() - ai))
    return b - a


def is_boolish(i):
    return i.dt == 'b'


def collapses(I, st, o, n, what):
    """A squeezed array whose only axis may have length one is a scalar then."""
    if o.ex('squeezed') and o.kind == 'num' and o.shape is not None and len(o.shape) == 1 and o.shape[0] is not None:
        p = o.shape[0]
        if len(p.d) == 1 and len(next(iter(p.d))) == 1 and next(iter(p.d.values())) == 1 \
                and not any(T.mk('sizefact', a) in st.facts for a in p.atoms()):
            I.ev('index_error', n, st, why=what + ' that is a scalar when its length is one')


def getitem(I, st, o, idx, n):
    deps = o.deps | idx.deps
    if o.ex('squeezed'):
        collapses(I, st, o, n, 'an index into a squeezed array')
    sym = itemsym(o.sym, idx)
    view_base = o.base + ((o.aid,) if o.aid else ())
    if o.kind == 'tuple' and o.ex('shapeof') is not None:
        return V('num', shape=(), dt='i', deg=F0, tw=0, row='I', deps=deps, sym=T.mk('dim', o.ex('shapeof').sym, idx.sym))
    if o.kind not in ('num', 'top'):
        return top(deps=deps, roots=o.roots, sym=sym)
    ix = index_list(idx)
    if padded(o.tw):
        o = o.w(tw=pad_index(o, ix))
    elif varying(o.tw) and not all(i.kind == 'none' or i.const is Ellipsis or T.rev[i.sym] == ('slice', NONE_T, NONE_T, NONE_T) for i in ix):
        o = plain_tw(o)
    # boolean/integer array anywhere => copy
    adv = [i for i in ix if i.kind in ('num', 'top', 'list') and not (is_sc(i) and not is_boolish(i)) and i.kind != 'none']
    unknown = any(i.kind == 'top' and i.shape is None and not i.ex('scalar') for i in ix)
    copied = bool(adv) and not unknown and all(i.kind == 'num' and i.shape != () or i.kind == 'list' for i in adv)
    roots, base = (E0, ()) if copied else (o.roots, view_base)
    if o.kind == 'top' and o.shape is None:
        r = top(deps=deps, roots=roots, sym=sym, row='I' if o.row == 'I' and idx_row(ix) == 'I' else None)
        r.deg, r.dt, r.base = o.deg, o.dt, base
        r.tw = o.tw if o.tw in (0, 'T') else None
        r.row = item_row_unknown(o, ix)
        return r
    if unknown:
        r = V('top', deps=deps, roots=o.roots, base=view_base, deg=o.deg if o.deg != 'H' else None, dt=o.dt, sym=sym,
              tw=o.tw if o.tw in (0, 'T') else None)
        r.row = item_row_unknown(o, ix)
        return r
    # ---- shapes
    shape = None
    row = None
    comp_ok = True
    tw = o.tw
    if o.shape is not None:
        nd = len(o.shape)
        cons = 0
        for i in ix:
            if i.kind in ('none', 'ellipsis'):
                continue
            cons += i.ndim if is_boolish(i) and i.ndim else 1
        if any(i.kind == 'ellipsis' for i in ix):
            k = [j for j, i in enumerate(ix) if i.kind == 'ellipsis'][0]
            full = V('slice', items=(const(None),) * 3, sym=T.mk('fullslice'))
            ix = ix[:k] + [full] * max(0, nd - cons) + ix[k + 1:]
        elif cons < nd:
            full = V('slice', items=(const(None),) * 3, sym=T.mk('fullslice'))
            ix = ix + [full] * (nd - cons)
        elif cons > nd and not o.sp:
            I.ev('index_error', n, st, why='too many indices')
            return top(deps=deps, sym=sym)
        out, axmap, advshape, advpos, ax = [], [], None, None, 0
        advs = []
        for i in ix:
            if i.kind == 'none':
                out.append(ONE)
                axmap.append(None)
            elif i.kind == 'slice':
                out.append(slice_len(o.shape[ax], i))
                axmap.append(ax)
                ax += 1
            elif is_sc(i) and not is_boolish(i) or i.ex('scalar'):
                c = cnum(i)
                L = o.shape[ax].as_int() if o.shape[ax] is not None else None
                if isinstance(c, int) and L is not None and not (-L <= c < L) and not o.sp:
                    I.ev('index_error', n, st, why=f'index {c} of axis of length {L}')
                advs.append((i, ax, 'int'))
                ax += 1
            else:
                if i.kind == 'list':
                    i = as_array(I, st, i, n)
                if is_boolish(i):
                    k = i.ndim or 1
                    if i.kind == 'num' and i.shape and not o.sp:
                        for x, y in zip(o.shape[ax:ax + k], i.shape):
                            if clash(st, x, y, False):
                                I.ev('shape_generic', n, st, a=str(o.shape), b=str(i.shape), op='mask')
                                break
                    sh = (Poly.atom(f'cnt{i.sym}'),)
                    advs.append((i, ax, 'bool'))
                    ax += k
                else:
                    sh = i.shape
                    advs.append((i, ax, 'arr'))
                    ax += 1
                if advpos is None:
                    advpos = len(out)
                    advshape = sh
                else:
                    if sh is not None and advshape is not None and o.kind == i.kind == 'num':
                        generic_clash(I, st, n, advshape, sh, 'index arrays')
                    advshape, _ = bshape(advshape, sh) if sh is not None and advshape is not None else (None, False)
        arrs = [a for a in advs if a[2] != 'int']
        if arrs:
            if advshape is None:
                shape = None
            else:
                # advanced axes separated by a slice go first
                pos = advpos
                axs = [a[1] for a in advs]
                if len(advs) > 1 and axs != list(range(axs[0], axs[0] + len(axs))):
                    pos = 0
                shape = tuple(out[:pos]) + tuple(advshape) + tuple(out[pos:])
                axmap = axmap[:pos] + ['adv'] * len(advshape) + axmap[pos:]
        else:
            shape = tuple(out)
        # ---- batch facet
        row = item_row(o, ix, advs, axmap, shape)
        # ---- translation
        if isinstance(tw, tuple):
            kind_, k = tw[2]
            if kind_ == 'v':
                axv = nd + k
                hit = [a for a in advs if a[1] == axv]
                if hit:
                    c = cnum(hit[0][0]) if hit[0][2] == 'int' else None
                    nd_len = o.shape[axv].as_int() if o.shape[axv] is not None else None
                    if c is not None and c < 0 and nd_len:
                        c += nd_len
                    tw = ('P', tw[1], ('c', c)) if isinstance(c, int) and c >= 0 else \
                        ('P', tw[1], ('c', f's{hit[0][0].sym}')) if c is None and hit[0][2] == 'int' and is_sc(hit[0][0]) else None
                else:
                    if shape is None:
                        tw = None
                    else:
                        ps = [j for j, m in enumerate(axmap) if m == axv]
                        sl = [i for i in ix if i.kind == 'slice']
                        if ps and slice_full(ix, axv, nd, o.shape[axv] is not None and shape[ps[0]] == o.shape[axv]):
                            tw = ('P', tw[1], ('v', ps[0] - len(shape)))
                        else:
                            tw = None
    else:
        row = item_row_unknown(o, ix)
        if isinstance(tw, tuple):
            tw = None
    if any(i.tw == 'T' for i in ix) and o.deg != 'Z' and (tw is None or tw == 0 or isinstance(tw, tuple)):
        tw = 'T'        # chosen by the absolute position
    dt = o.dt
    deg = o.deg
    if deg == 'H':
        deg = None
        r0 = o.ex('lit')
        c = cnum(idx)
        if r0 is not None and isinstance(c, int) and -len(r0) <= c < len(r0):
            deg = r0[c].deg
    kind = 'num' if o.kind == 'num' else 'top'
    if o.shape is not None and shape is None:
        kind = 'top'
    lit = o.ex('lit')
    c = cnum(idx)
    if lit is not None and isinstance(c, int) and -len(lit) <= c < len(lit) and lit[c].kind == 'num':
        return lit[c].w(deps=deps)
    if shape == ():
        return V(kind, shape=(), deg=deg, tw=tw, row=row, dt=dt, deps=deps, sym=sym)
    if o.sp and shape is not None and len(shape) < 2:
        # a sparse matrix keeps two dimensions, a sparse array does not
        kind, shape = 'top', None
    return V(kind, shape=shape, deg=deg, tw=tw, row=row, dt=dt, deps=deps, sym=sym, roots=roots, base=base,
             sp=o.sp)


def slice_full(ix, axv, nd, whole=False):
    """The slice at this axis takes everything; whole: its length is that of the axis."""
    ax = 0
    for i in ix:
        if i.kind == 'none':
            continue
        if ax == axv:
            return i.kind == 'slice' and (all(p.kind == 'none' for p in i.items) or whole and i.items[2].kind == 'none')
        ax += (i.ndim if is_boolish(i) and i.ndim else 1)
    return False


def idx_row(ix):
    r = 'I'
    for i in ix:
        if i.kind == 'slice':
            for p in i.items:
                if p.kind != 'none':
                    r = jrow2(r, p.row)
        elif i.kind not in ('none', 'ellipsis'):
            r = jrow2(r, i.row)
    return r


def item_row_unknown(o, ix):
    r = idx_row(ix)
    if o.row == 'I' and r == 'I':
        return 'I'
    if isinstance(o.row, tuple) and o.row[0] == 'R' and r in ('I', o.row):
        return o.row
    if o.row == 'M' and r == 'I':
        return 'M'
    return None


def item_row(o, ix, advs, axmap, shape):
    r = idx_row(ix)
    if o.row == 'I':
        if r == 'I':
            return 'I'
        if r is None:
            return None
        # gather from batch-independent data: result row i depends on index row i
        if isinstance(r, tuple) and r[0] == 'R':
            return r
        arrs = [a for a in advs if a[2] != 'int']
        if isinstance(r, tuple) and r[0] == 'A' and shape is not None and arrs and all(a[2] == 'arr' for a in arrs):
            mx = max(a[0].ndim for a in arrs)
            first = [j for j, m in enumerate(axmap) if m == 'adv']
            k = None
            for a in arrs:
                if isinstance(a[0].row, tuple) and a[0].row[0] == 'A':
                    kk = a[0].row[1] + mx - a[0].ndim
                    if k is not None and k != kk:
                        return None
                    k = kk
            if first and k is not None:
                return ('A', first[0] + k)
        return None
    if isinstance(o.row, tuple) and o.row[0] == 'R':
        return o.row if r in ('I', o.row) else None
    if o.row == 'M':
        return 'M' if r == 'I' else None
    if isinstance(o.row, tuple) and o.row[0] in ('A', 'S'):
        k = o.row[1]
        hit = [a for a in advs if a[1] == k]
        if hit:
            a = hit[0]
            if a[2] == 'int' and a[0].ex('rowidx') and a[0].row == ('R', a[0].ex('rowidx')):
                return ('R', a[0].ex('rowidx'))
            if a[2] == 'bool' and isinstance(a[0].row, tuple) and a[0].row == ('A', 0):
                ps = [j for j, m in enumerate(axmap) if m == 'adv']
                return ('S', ps[0], a[0].sym) if ps else None
            return None
        if r != 'I':
            return None
        # which result axis is the batch axis now
        ps = [j for j, m in enumerate(axmap) if m == k]
        if shape is None or not ps:
            return None
        if not slice_full(ix, k, len(o.shape)):
            return None
        return (o.row[0], ps[0]) + o.row[2:]
    return None


def itemsym(os, idx):
    t = T.rev[os]
    if t[0] in ('tuple', 'list') and isinstance(idx.const, int) and not isinstance(idx.const, bool):
        k = idx.const
        if -len(t) + 1 <= k < len(t) - 1:
            return t[1:][k]
    # x[i][j] and x[i,j]; trailing full slices do not matter
    ix = index_list(idx)
    full = T.mk('slice', T.const(None), T.const(None), T.const(None))
    syms = [i.sym for i in ix]
    while len(syms) > 1 and syms[-1] == full:
        syms.pop()
    return T.mk('item', os, *syms)


# ------------------------------------------------------------------ stores
def fill_kind(o, idx):
    """What a store covers: 'full', or per axis 'any', ('mask', term), ('c', constant index), ('from', term) for a slice that
    does not begin at the first entry, ('part', term) for one that stops early or has a step."""
    ix = index_list(idx)
    if any(i.kind in ('none', 'ellipsis') for i in ix) or o.shape is None or o.kind != 'num' or o.ex('view'):
        ix = [i for i in ix if i.kind not in ('none', 'ellipsis')]
        exact = False
    else:
        exact = True
    out = []
    for i in ix:
        k = 'any'
        if is_boolish(i) and i.ndim:
            k = ('mask', i.sym)
            if i.ndim > 1:
                return (k,)
        elif i.kind == 'slice':
            a, b, s = i.items
            la, lb, ls = [cnum(p) if p.kind != 'none' else None for p in i.items]
            if a.kind != 'none' and (isinstance(la, int) and la != 0 or a.poly is not None and a.poly.atoms()):
                k = ('from', i.sym)
            elif isinstance(lb, int) and not (o.shape is not None and len(out) < len(o.shape) and o.shape[len(out)] is not None
                                             and o.shape[len(out)].as_int() is not None and lb >= o.shape[len(out)].as_int()) \
                    or isinstance(ls, int) and ls > 1:
                k = ('part', i.sym)
        elif exact:
            c = cnum(i)
            if isinstance(c, int) and not isinstance(c, bool):
                n = o.shape[len(out)] if len(out) < len(o.shape) else None
                n = n.as_int() if n is not None else None
                if c >= 0 or n is not None:
                    k = ('c', c if c >= 0 else c + n)
        out.append(k)
    if all(k == 'any' for k in out):
        return 'full'
    return tuple(out)


def covers(kinds, shape):
    """False when stores of these kinds certainly leave entries of an array of this shape unwritten."""
    if not kinds:
        return False
    if 'full' in kinds or any(all(k == 'any' for k in x) for x in kinds):
        return True
    rank = max(len(x) for x in kinds)
    kinds = {x + ('any',) * (rank - len(x)) for x in kinds}
    for a in range(rank):
        cs = {x[a][1] for x in kinds if x[a][0] == 'c'}
        if cs:
            n = shape[a].as_int() if shape is not None and a < len(shape) and shape[a] is not None else None
            if n is not None and len(kinds) == len([x for x in kinds if x[a][0] == 'c']) and n > len(cs):
                return False
            sub = tuple(shape[:a]) + tuple(shape[a + 1:]) if shape is not None else None
            for c in cs:
                part = {x[:a] + x[a + 1:] for x in kinds if x[a] == ('c', c) or x[a][0] != 'c'}
                if rank > 1 and not covers(part, sub):
                    return False
            if rank == 1:
                return len(kinds) > len(cs) or (len(cs) >= n if n is not None else sub is None or len(cs) > 1)
            return True
    if len(kinds) == 1:
        return False
    for a in range(rank):
        if all(x[a][0] == 'from' for x in kinds) or all(x[a][0] == 'part' for x in kinds) and len({x[a] for x in kinds}) == 1:
            return False
    return True


def setitem(I, st, o, idx, v, n, aug=False):
    deps = o.deps | idx.deps | v.deps
    sym = T.mk('store', o.sym, idx.sym, v.sym)
    if o.kind not in ('num', 'top'):
        return o.w(deps=deps, sym=sym)
    ix = index_list(idx)
    full = all(i.kind == 'slice' and all(p.kind == 'none' for p in i.items) or i.kind == 'ellipsis' for i in ix)
    from .interp import jdeg_store
    deg = v.deg if full else jdeg_store(o.deg, v.deg)
    tw = v.tw if full else (o.tw if o.tw == v.tw or v.tw == 'N' else store_tw(o, ix, v))
    row = store_row(o, ix, v)
    if o.shape is not None and o.kind == 'num' and not o.sp:
        cons = sum((i.ndim if is_boolish(i) and i.ndim else 1) for i in ix if i.kind not in ('none', 'ellipsis'))
        if cons > len(o.shape):
            I.ev('index_error', n, st, why='too many indices in assignment')
        elif v.kind == 'num' and v.shape and cons <= len(o.shape):
            reg = getitem(I, st, o, idx, n)
            if reg.kind == 'num' and reg.shape is not None:
                big = [x for x in v.shape if x != ONE]
                if len(big) > len(reg.shape):
                    I.ev('shape_mismatch', n, st, a=str(reg.shape), b=str(v.shape), op='=')
                _, bad = bshape(reg.shape, v.shape)
                if bad:
                    I.ev('shape_mismatch', n, st, a=str(reg.shape), b=str(v.shape), op='=')
                generic_clash(I, st, n, reg.shape, v.shape, '=')
    if o.dt == 'i' and v.dt == 'f' and o.kind == 'num':
        I.ev('int_store_float', n, st)
    extra = None
    lit, c = o.ex('lit'), cnum(idx)
    if lit is not None and isinstance(c, int) and not isinstance(c, bool) and -len(lit) <= c < len(lit) \
            and o.ndim == 1 and v.kind == 'num' and v.shape == () and (o.dt == v.dt or o.dt == 'f'):
        lit = list(lit)
        lit[c] = v.w(roots=E0, aid=None, base=())
        extra = {'lit': tuple(lit)}
    return o.w(deps=deps, sym=sym, deg=deg, tw=tw, row=row, const=NOC, poly=None, extra=extra)


def is_comp(i, comp):
    c = cnum(i)
    return c == comp[1] if c is not None else comp[1] == f's{i.sym}'


def store_tw(o, ix, v):
    if o.tw == 'N' and not o.sp:
        # entries of an array that holds no positions so far
        if v.tw in (0, 'T') or v.tw is None:
            return v.tw
        nd = o.ndim
        if v.tw[2][0] == 'c' and nd and not varying(v.tw):
            if nd == 1 and v.ndim == 0 and is_comp(ix[0], v.tw[2]) or nd > 1 and len(ix) == nd and is_comp(ix[-1], v.tw[2]):
                return ('P', v.tw[1], ('v', -1))
        if v.tw[2] == ('v', -1) and nd and not varying(v.tw) and o.shape and v.shape and v.shape[-1] is not None and v.shape[-1] == o.shape[-1] \
                and (len(ix) < nd or slice_full(ix, nd - 1, nd)):
            return v.tw
        return None
    if isinstance(o.tw, tuple) and isinstance(v.tw, tuple) and v.tw[2][0] == 'c' and o.tw[2] == ('v', -1) and o.tw[1] == v.tw[1] and o.ndim \
            and len(ix) == o.ndim and is_comp(ix[-1], v.tw[2]):
        return o.tw
    if mixed(o.tw) and v.tw == 0 and v.deg != 'Z' and not any(is_boolish(i) for i in ix):
        return o.tw
    if isinstance(o.tw, tuple) and o.tw[2] == ('v', -1) and not varying(o.tw) and o.kind == 'num' and not o.sp and o.ndim and displaced(v) \
            and v.kind == 'num' and ix and (len(ix) < o.ndim or slice_full(ix, o.ndim - 1, o.ndim)):
        return mix_tw((o, v), T.mk('mix', o.sym, v.sym))
    return 'T' if v.tw == 'T' and o.tw == 0 else None


def store_row(o, ix, v):
    r = idx_row(ix)
    if o.row == 'I' and v.row == 'I' and r == 'I':
        return 'I'
    # x[i, ...] = row value, inside the loop over the batch
    if ix and is_sc(ix[0]) and ix[0].ex('rowidx') and ix[0].row == ('R', ix[0].ex('rowidx')):
        lr = ix[0].row
        rest = idx_row(ix[1:])
        if v.row in ('I', lr) and rest in ('I', lr) and o.row in ('I', ('A', 0)):
            return ('A', 0)
    if ix and is_boolish(ix[0]) and ix[0].row == ('A', 0) and o.row in ('I', ('A', 0)):
        if v.row == 'I' or (isinstance(v.row, tuple) and v.row[0] == 'S' and v.row[1] == 0 and v.row[2] == ix[0].sym):
            if idx_row(ix[1:]) == 'I':
                return ('A', 0)
    if o.shape is not None and r == 'I' and all(i.kind == 'slice' or is_sc(i) for i in ix):
        nd = len(o.shape)
        # columns of a batch array
        if slice_full(ix + [], 0, nd) and isinstance(v.row, tuple) and v.row == ('A', 0) and o.row in ('I', ('A', 0)):
            return ('A', 0)
        if slice_full(ix, 0, nd) and v.row == 'I' and o.row == ('A', 0):
            return ('A', 0)
    if all(i.kind == 'slice' and all(p.kind == 'none' for p in i.items) or i.kind == 'ellipsis' for i in ix):
        return v.row if v.shape == o.shape and v.shape is not None else 'M' if v.row == 'M' else None
    if o.row == 'M' or v.row == 'M':
        return 'M'
    return None
