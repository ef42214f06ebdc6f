"""Abstract values: one object carries every facet the rules look at.

kind   num (scalar / ndarray / sparse), str, none, tuple, list, dict, func, cls,
       inst, ext (library object by dotted path), mod, range, slice, ellipsis, top
shape  tuple of Poly|None, or None when the rank is unknown
poly   value of an integer scalar as a polynomial over size atoms
deg    homogeneity degree in the coordinates: Fraction | 'Z' (zero/inf: any degree)
       | 'X' (certainly not homogeneous) | None (unknown)
tw     translation weight: 0 (invariant) | ('P', c, comp) (moves by c*t) | 'N' (infinite: no position at all) | 'T'
       (certainly depends on absolute position) | None
row    dependence on the batch axis: 'I' | ('A',axis) | ('S',axis,mask) | ('R',loop)
       | 'M' (mixes rows) | None
dt     'b' | 'i' | 'f' | 'c' | None
roots  caller/global memory this value may share storage with
deps   parameters that may influence it
sym    hash-consed term (equal id => equal value)
"""
from fractions import Fraction
from .terms import T, Poly, phi

NOC = type('NOC', (), {'__repr__': lambda s: 'NOC'})()


class Other:
    """A value different from every literal in the program (e.g. an unknown option)."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<unrecognised {self.name}>'


E0 = frozenset()


class V:
    __slots__ = ('kind', 'const', 'path', 'shape', 'poly', 'deg', 'tw', 'row', 'dt', 'roots',
                 'deps', 'sym', 'addr', 'items', 'elem', 'base', 'aid', 'sp', 'fn', 'extra', 'mb')

    def __init__(self, kind, **kw):
        self.kind = kind
        self.const = NOC
        self.path = None
        self.shape = None
        self.poly = None
        self.deg = None
        self.tw = None
        self.row = None
        self.dt = None
        self.roots = E0
        self.deps = E0
        self.sym = None
        self.addr = None
        self.items = None
        self.elem = None
        self.base = ()
        self.aid = None
        self.sp = False
        self.fn = None
        self.extra = None
        self.mb = False
        for k, v in kw.items():
            setattr(self, k, v)
        if self.sym is None:
            self.sym = T.fresh(kind)

    def w(self, **kw):
        n = V.__new__(V)
        for s in V.__slots__:
            setattr(n, s, getattr(self, s))
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def ex(self, k, d=None):
        return (self.extra or {}).get(k, d)

    def wex(self, **kw):
        e = dict(self.extra or {})
        e.update(kw)
        return self.w(extra=e)

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)

    def is_arr(self):
        return self.kind in ('num', 'top')

    def __repr__(self):
        b = [self.kind]
        if self.const is not NOC:
            b.append(f'={self.const!r}')
        for s in ('shape', 'poly', 'deg', 'tw', 'row', 'dt'):
            x = getattr(self, s)
            if x is not None:
                b.append(f'{s}={x}')
        if self.items is not None:
            b.append(f'items={self.items}')
        if self.roots:
            b.append(f'roots={sorted(self.roots)}')
        if self.deps:
            b.append(f'deps={sorted(self.deps)}')
        return '<' + ' '.join(map(str, b)) + '>'


_aid = [0]


def new_aid():
    _aid[0] += 1
    return _aid[0]


def const(c):
    if c is None:
        return V('none', const=None, sym=T.const(None), deg='Z', tw=0, row='I')
    if isinstance(c, bool):
        return V('num', const=c, shape=(), dt='b', deg=Fraction(0), tw=0, row='I', sym=T.const(c),
                 poly=None)
    if isinstance(c, int):
        return V('num', const=c, shape=(), dt='i', deg='Z' if c == 0 else Fraction(0), tw=0, row='I',
                 poly=Poly.c(c), sym=T.const(c))
    if isinstance(c, float):
        z = c == 0 or c != c or c in (float('inf'), float('-inf'))
        return V('num', const=c, shape=(), dt='f', deg='Z' if z else Fraction(0), tw='N' if c in (float('inf'), float('-inf')) else 0,
                 row='I', sym=T.const(c))
    if isinstance(c, complex):
        return V('num', const=c, shape=(), dt='c', deg=Fraction(0), tw=0, row='I', sym=T.const(c))
    if isinstance(c, (str, bytes)):
        return V('str', const=c, sym=T.const(c), row='I')
    if c is Ellipsis:
        return V('ellipsis', const=c, sym=T.mk('...'))
    if isinstance(c, Other):
        return V('str', const=c, sym=T.mk('other', c.name), deps=frozenset([c.name]))
    if isinstance(c, tuple):
        return tup([const(x) for x in c])
    return V('top', sym=T.const(c))


def tup(items, kind='tuple'):
    items = tuple(items)
    return V(kind, items=items, sym=T.mk(kind, *[i.sym for i in items]),
             deps=frozenset().union(*[i.deps for i in items]) if items else E0,
             roots=frozenset().union(*[i.roots for i in items]) if items else E0,
             aid=new_aid() if kind == 'list' else None)


def top(deps=E0, roots=E0, sym=None, **kw):
    return V('top', deps=deps, roots=roots, sym=sym, **kw)


def intv(poly, sym=None, deps=E0, **kw):
    c = poly.as_int() if poly is not None else None
    if c is not None:
        v = const(c)
        return v.w(deps=deps) if deps else v
    return V('num', shape=(), dt='i', poly=poly, deg=Fraction(0), tw=0, row='I',
             sym=sym if sym is not None else T.mk('poly', repr(poly)), deps=deps, **kw)


def udeps(vs):
    d = E0
    for v in vs:
        if v is not None and v.deps:
            d = d | v.deps
    return d


def uroots(vs):
    d = E0
    for v in vs:
        if v is not None and v.roots:
            d = d | v.roots
    return d


# ---------------------------------------------------------------- facet joins
def jdeg(a, b):
    if a == b:
        return a
    if a == 'Z':
        return b
    if b == 'Z':
        return a
    if a == 'X' or b == 'X':
        return 'X'
    return None


def jtw(a, b):
    if a == b or b == 'N':
        return a
    if a == 'N':
        return b
    if a == 'T' or b == 'T':
        return 'T'
    for x in (a, b):
        if mixed(x):
            return x
    return None


def mixed(t):
    """Some entries move differently from the others."""
    return isinstance(t, tuple) and isinstance(t[1], Poly) and any(x.startswith('w!') for x in t[1].atoms())


def displaced(v):
    """A length that certainly does not move with the frame."""
    return v.tw == 0 and isinstance(v.deg, Fraction) and v.deg != 0 and v.const is NOC


def mix_tw(vs, sym):
    """Translation weight of values of which some move and others do not, or do so differently."""
    vs = [v for v in vs if v.tw != 'N' and v.deg != 'Z']
    if all(displaced(v) or isinstance(v.tw, tuple) and not isinstance(v.tw[1], Poly) and v.tw[2] == ('v', -1) for v in vs) \
            and len({v.tw for v in vs}) > 1:
        return ('P', Poly.atom(f'w!{sym}'), ('v', -1))
    return None


def jtw2(a, b, sym):
    t = jtw(a.tw, b.tw)
    return mix_tw((a, b), sym) if t is None else t


def jrow(a, b):
    if a == b:
        return a
    if a == 'M' or b == 'M':
        return 'M'
    if a == 'I' and b is not None:
        return b
    if b == 'I' and a is not None:
        return a
    return None


def jshape(a, b, c=None):
    if a == b:
        return a
    if a is None or b is None or len(a) != len(b):
        return None
    return tuple(x if x == y else phi(x, y, c) for x, y in zip(a, b))


def jdt(a, b):
    """'m' means integer on one path and floating point on another."""
    if a == b:
        return a
    return 'm' if a is not None and b is not None and {a, b} <= set('ifbm') and {a, b} & {'f', 'm'} else None


def notnone(v):
    return v.ex('notnone') or not v.ex('maybe_none') and (v.kind == 'num' or v.kind == 'top' and v.shape is not None)


def joinv(a, b, c=None):
    """Least upper bound; c is the term of the condition that separated them."""
    if a is b:
        return a
    sym = a.sym if a.sym == b.sym else T.mk('phi', c if c is not None else -1, a.sym, b.sym)
    deps = a.deps | b.deps
    roots = a.roots | b.roots
    mb = a.mb or b.mb
    if a.kind == b.kind:
        k = a.kind
        if k in ('tuple', 'list'):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                its = tuple(joinv(x, y, c) for x, y in zip(a.items, b.items))
                return V(k, items=its, sym=sym, deps=deps, roots=roots, mb=mb,
                         aid=a.aid if a.aid == b.aid else new_aid() if k == 'list' else None,
                         elem=None, extra=a.extra if a.extra == b.extra else None)
            el = None
            for x in (a, b):
                for y in (x.items if x.items is not None else ([x.elem] if x.elem else [])):
                    el = y if el is None else joinv(el, y, c)
            if el is not None and el.dt == 'm' and k == 'tuple':
                el = el.w(dt=None)      # members of different positions
            return V(k, items=None, elem=el, sym=sym, deps=deps, roots=roots, mb=mb,
                     aid=a.aid if a.aid == b.aid else new_aid() if k == 'list' else None,
                     extra=None if a.extra != b.extra else a.extra)
        if k in ('inst', 'dict') and a.addr == b.addr:
            return a.w(deps=deps, sym=sym, mb=mb, roots=roots)
        if k in ('func', 'cls', 'ext', 'mod') and (a.path, a.fn) == (b.path, b.fn):
            return a.w(mb=mb)
        if k == 'none':
            return a.w(deps=deps, mb=mb)
        if k in ('num', 'str', 'range', 'slice'):
            same = a.const is not NOC and b.const is not NOC and type(a.const) is type(b.const) \
                and repr(a.const) == repr(b.const)
            ex = None
            if a.extra == b.extra:
                ex = a.extra
            return V(k, const=a.const if same else NOC, shape=jshape(a.shape, b.shape, c),
                     poly=a.poly if a.poly == b.poly else phi(a.poly, b.poly, c), deg=jdeg(a.deg, b.deg),
                     tw=jtw2(a, b, sym), row=jrow(a.row, b.row), dt=jdt(a.dt, b.dt),
                     roots=roots, deps=deps, sym=sym, mb=mb, sp=a.sp if a.sp == b.sp else bool(a.sp and b.sp), extra=ex,
                     base=a.base if a.base == b.base else a.base + b.base,
                     aid=a.aid if a.aid == b.aid else None,
                     items=a.items if k == 'slice' and a.items == b.items else None)
    ex = None
    for x, y in ((a, b), (b, a)):
        if x.kind == 'none' and y.kind in ('num', 'top'):
            return V('top', shape=y.shape, deg=y.deg, tw=y.tw, row=y.row, dt=y.dt, roots=roots,
                     deps=deps, sym=sym, mb=mb, base=y.base, extra={'maybe_none': True})
    for x, y in ((a, b), (b, a)):
        if x.kind == 'list' and x.items == () and y.kind in ('num', 'top'):
            return V('top', deg=y.deg, tw=y.tw, row=y.row, dt=y.dt if y.dt == 'f' else None, roots=roots, deps=deps, sym=sym, mb=mb,
                     base=y.base)
    if {a.kind, b.kind} <= {'num', 'top'}:
        return V('top', shape=jshape(a.shape, b.shape, c), deg=jdeg(a.deg, b.deg), tw=jtw2(a, b, sym),
                 row=jrow(a.row, b.row), dt=jdt(a.dt, b.dt), roots=roots, deps=deps, sym=sym, mb=mb,
                 base=a.base + b.base, extra={'maybe_none': True} if a.ex('maybe_none') or b.ex('maybe_none') else
                 {'notnone': True} if notnone(a) and notnone(b) else None)
    return V('top', roots=roots, deps=deps, sym=sym, mb=mb)
