"""Transfer functions for numpy, scipy, builtins and the native extension."""
import ast
from fractions import Fraction
from .terms import T, Poly
from .values import (V, NOC, Other, E0, const, tup, top, intv, udeps, uroots, joinv, jdeg, jtw, mix_tw, jrow,
                     jshape, jdt, new_aid)
from .npcore import (pad_tw, varying, plain_tw, blur_tw, omitted, fill_kind, clash, unary, binop, compare, attribute, getitem, setitem, matmul, transpose, bshape, mk, cnum,
                     is_sc, F0, F1, ONE, prom, jrow2, shift_row, add_deg, mul_deg, nonlin_tw, rows_of, rowb,
                     shape_val, index_list, binsym, as_array, add_tw)

NATIVE = ('gpytoolbox_bindings', 'gpytoolbox_bindings_copyleft')
DTS = {'int': 'i', 'float': 'f', 'bool': 'b', 'complex': 'c', 'float64': 'f', 'float32': 'f', 'double': 'f',
       'int32': 'i', 'int64': 'i', 'intc': 'i', 'uint8': 'i', 'uint32': 'i', 'uint64': 'i', 'int16': 'i', 'int8': 'i',
       'bool_': 'b', 'intp': 'i', 'uint': 'i', 'int_': 'i', 'float_': 'f', 'single': 'f', 'half': 'f', 'float16': 'f',
       'longdouble': 'f', 'complex128': 'c', 'complex64': 'c', 'longlong': 'i', 'uint16': 'i', 'i': 'i', 'f': 'f',
       'd': 'f', 'f8': 'f', 'i4': 'i', 'i8': 'i', '<f4': 'f', '<f8': 'f', '<i4': 'i'}


def dtype_of(v):
    """'b'/'i'/'f'/'c' of a dtype argument, None when unknown."""
    if v is None or v.kind == 'none':
        return None
    if v.kind == 'ext':
        if v.ex('dt'):
            return v.ex('dt')
        return DTS.get(v.path.split('.')[-1])
    if isinstance(v.const, str):
        return DTS.get(v.const)
    return None


def dtype_name(v):
    if v is not None and v.kind == 'ext':
        return v.path.split('.')[-1]
    if v is not None and isinstance(v.const, str):
        return v.const
    return None


CONSTS = {'inf': float('inf'), 'nan': float('nan'), 'pi': 3.141592653589793, 'e': 2.718281828459045,
          'Inf': float('inf'), 'NaN': float('nan'), 'NINF': float('-inf')}


def ext_const(path):
    root, _, last = path.rpartition('.')
    if root in ('numpy', 'math', 'np') and last in CONSTS:
        return const(CONSTS[last])
    if path == 'numpy.newaxis':
        return const(None)
    return None


# ------------------------------------------------------------------ helpers
class Args:
    def __init__(self, args, kw):
        self.a, self.k = args, kw

    def get(self, i, *names):
        for n in names:
            if n in self.k:
                return self.k[n]
        if i is not None and i < len(self.a):
            return self.a[i]
        return None


def csym(path, args, kw):
    ks = []
    for k in sorted(kw):
        ks += [k, kw[k].sym]
    return T.mk('call', path, *[a.sym for a in args], *ks)


def dimpoly(v):
    """Size given by a value as a polynomial."""
    if v is None:
        return None
    if v.poly is not None:
        return v.poly
    c = cnum(v)
    if c is not None and c == int(c):
        return Poly.c(int(c))
    if v.kind == 'num' and v.shape == ():
        return Poly.atom(f'v{v.sym}')
    return None


def shape_arg(v):
    if v is None:
        return None
    if v.kind in ('tuple', 'list'):
        if v.items is None:
            return None
        return tuple(dimpoly(x) for x in v.items)
    if is_sc(v):
        return (dimpoly(v),)
    return None


def lit_of(vs):
    return tuple(vs) if len(vs) <= 16 else None


def same_tw(a, b):
    """Translation weight shared by members of one array; infinities have none."""
    return a if a == b or b == 'N' else b if a == 'N' else 'T' if 'T' in (a, b) else None


def join_all(vs):
    from .interp import jdeg_store
    deg, tw, dt, row = vs[0].deg, vs[0].tw, vs[0].dt, vs[0].row
    for v in vs[1:]:
        deg = jdeg_store(deg, v.deg)
        tw = same_tw(tw, v.tw)
        dt = prom(dt, v.dt)
        row = jrow2(row, v.row)
    return deg, tw, dt, row


def to_array(I, st, v, n, dt=None):
    """np.array(v) facets, as a fresh array."""
    if v.kind in ('num', 'top'):
        r = v.w(roots=E0, base=(), aid=None)
        if v.kind == 'top' and v.ex('asarr'):
            r = r.w(kind='num', shape=v.ex('asarr'), sp=False, extra=None)
        if dt:
            r = cast(I, st, r, dt, n)
        return r
    if v.kind in ('tuple', 'list', 'range'):
        if v.kind == 'range':
            return mk('array', [v], shape=(dimpoly(v.ex('stop')) if v.ex('start0') else None,), dt='i', deg=F0, tw=0,
                      row='I')
        if v.items is not None and v.items:
            its = [to_array(I, st, x, n) if x.kind in ('tuple', 'list', 'range') else x for x in v.items]
            if all(x.kind == 'num' for x in its):
                deg, tw, d, row = join_all(its)
                sh = its[0].shape
                for x in its[1:]:
                    sh = jshape(sh, x.shape) if sh is not None else None
                shape = (Poly.c(len(its)),) + sh if sh is not None else None
                if isinstance(row, tuple) and row[0] == 'A':
                    row = ('A', row[1] + 1)
                if isinstance(tw, tuple):
                    if tw[2][0] != 'v':
                        tw = None
                elif tw is None and its[0].shape == () and all(isinstance(x.tw, tuple) and x.tw[2][0] == 'c' for x in its):
                    if [x.tw[2][1] for x in its] == list(range(len(its))) and len({x.tw[1] for x in its}) == 1:
                        tw = ('P', its[0].tw[1], ('v', -1))
                if tw is None and all(x.shape for x in its):
                    tw = mix_tw(its, v.sym)
                r = V('num', shape=shape, deg=deg, tw=tw, dt=dt or d, row=row, deps=v.deps, sym=T.mk('array', v.sym),
                      extra={'lit': lit_of(its)} if len(its) <= 16 else None)
                return r
            return V('top', deps=v.deps, sym=T.mk('array', v.sym), dt=dt)
        if v.items is not None:
            return V('num', shape=(Poly.c(0),), deg='Z', tw=0, dt=dt or 'f', row='I', sym=T.mk('array', v.sym),
                     deps=v.deps, extra={'emptylit': True})
        e = v.elem
        r = V('top', deps=v.deps, sym=T.mk('array', v.sym), dt=dt or (e.dt if e is not None else None),
              extra={'maybe0': 'dtype' if dt else 'plain'} if v.kind == 'list' and (v.ex('maybe0') or T.stays_empty(v.sym)) else None)
        if e is not None and e.kind == 'num':
            r.deg, r.tw = e.deg, e.tw if e.tw in (0, 'T') else None
            if v.ex('rowlist') and isinstance(e.row, tuple):
                r.row = ('A', 0)
            if e.shape is not None:
                # an empty list yields a 1-d array, so the rank is known only for scalars
                if e.shape == ():
                    r.kind, r.shape = 'num', (Poly.atom(f'len{v.sym}'),)
        return r
    if v.kind == 'none':
        return top(deps=v.deps, sym=T.mk('array', v.sym))
    return V('top', deps=v.deps, sym=T.mk('array', v.sym), dt=dt)


def cast(I, st, v, dt, n, name=None):
    if dt is None:
        return v.w(dt=None, const=NOC, poly=None, sym=T.mk('cast', name or '?', v.sym))
    deg, tw = v.deg, v.tw
    if dt == 'i' and v.dt in ('f', 'm', None):
        if isinstance(deg, Fraction) and deg != 0:
            deg = 'X'
        if v.dt == 'f':
            tw = tw if tw in (0, None) else 'T'
    if dt == 'b':
        deg = F0 if deg is not None and deg != 'X' else deg
        tw = 0 if tw == 0 else ('T' if tw is not None else None)
    sym = v.sym if v.dt == dt else T.mk('cast', dt, v.sym)
    if v.const is not NOC and cnum(v) is not None:
        try:
            c = {'i': int, 'f': float, 'b': bool}[dt](v.const)
            return const(c).w(deps=v.deps)
        except Exception:
            pass
    return v.w(dt=dt, deg=deg, tw=tw, sym=sym, const=NOC, poly=v.poly if dt == 'i' else None,
               extra=v.extra if dt == 'f' and v.dt in ('i', 'f') else None)


def norm_axis(v, nd):
    c = cnum(v) if v is not None else None
    if isinstance(c, int) and nd is not None:
        return c + nd if c < 0 else c
    return None


def reduce_(I, st, name, x, axis, n, keep=False, args=()):
    """Reductions: sum mean max min all any prod argmax argmin std var norm…"""
    if x.kind in ('tuple', 'list'):
        x = as_array(I, st, x, n)
    nd = x.ndim
    noax = axis is None or axis.kind == 'none'
    ax = None if noax else norm_axis(axis, nd)
    shape = None
    if noax:
        shape = () if not keep else ((ONE,) * nd if nd is not None else None)
    elif ax is not None and nd is not None and ax < nd:
        shape = x.shape[:ax] + ((ONE,) if keep else ()) + x.shape[ax + 1:]
    elif ax is not None and nd is not None and not x.sp:
        I.ev('index_error', n, st, why=f'axis {ax} of a {nd}-d array')
    elif not noax and axis.kind == 'tuple' and nd is not None and axis.items is not None:
        axs = [norm_axis(a, nd) for a in axis.items]
        if None not in axs:
            shape = tuple(ONE if k in axs else p for k, p in enumerate(x.shape) if keep or k not in axs)
    row = x.row
    if isinstance(row, tuple) and row[0] in ('A', 'S'):
        if noax:
            row = 'M' if nd is not None and row[0] == 'A' else None
        elif ax is not None and nd is not None:
            if ax == row[1]:
                row = 'M' if row[0] == 'A' else None
            elif ax < row[1] and not keep:
                row = (row[0], row[1] - 1) + row[2:]
        else:
            row = None
    # reductions that only say something about sizes or validity do not mix rows usefully
    deg, tw = x.deg, x.tw
    lin = name in ('sum', 'mean', 'average', 'nanmean', 'nansum')
    if isinstance(tw, tuple) and tw[2][0] == 'v' and nd is not None and ax is not None:
        vpos = nd + tw[2][1]
        if vpos == ax:
            tw = None if lin else 'T'
        else:
            newpos = vpos - (1 if ax < vpos and not keep else 0)
            newnd = nd - (0 if keep else 1)
            if name in ('sum', 'nansum'):
                p = x.shape[ax]
                k = p.as_int() if p is not None else None
                tw = ('P', tw[1] * k, ('v', newpos - newnd)) if k is not None else None
            elif name in ('mean', 'average', 'nanmean', 'max', 'min', 'amax', 'amin', 'median'):
                tw = ('P', tw[1], ('v', newpos - newnd))
            elif name in ('std', 'var', 'ptp', 'argmax', 'argmin', 'argsort'):
                tw = 0
            else:
                tw = 'T'
    elif isinstance(tw, tuple) and tw[2][0] == 'c':
        if name in ('mean', 'max', 'min', 'amax', 'amin', 'average', 'median'):
            pass
        elif name in ('std', 'var', 'ptp', 'argmax', 'argmin', 'argsort'):
            tw = 0
        else:
            tw = None if lin else 'T'
    elif isinstance(tw, tuple):
        tw = None if lin or name in ('std', 'var', 'ptp') else ('T' if nd is not None and nd <= 1 or noax else None)
    elif tw == 'T' and lin and not x.ex('curved'):
        tw = None
    if lin and isinstance(tw, tuple) and tw[1] == 0:
        tw = 0
    dt = x.dt
    if name in ('mean', 'average', 'std', 'var', 'median', 'norm'):
        dt = 'f' if x.dt in ('b', 'i', 'f') else None
    elif name in ('argmax', 'argmin', 'argsort', 'count_nonzero'):
        dt = 'i'
        deg = F0 if deg not in ('X', None) else deg
        if isinstance(x.tw, tuple) and not varying(x.tw) and name != 'count_nonzero' and nd is not None and x.kind == 'num':
            where = nd - 1 if x.tw[2][0] == 'v' else None      # the axis of the coordinates
            tw = ('T' if ax == where or nd == 1 else None if noax else 0) if where is not None else 0 if nd == 1 or ax is not None else None
        else:
            tw = 'T' if x.tw == 'T' and name != 'count_nonzero' else 0 if tw == 0 else None
    elif name in ('all', 'any'):
        dt = 'b'
        deg = F0 if deg not in ('X', None) else deg
        tw = 0 if x.tw == 0 else ('T' if x.tw == 'T' else None)
    elif name == 'sum' and x.dt == 'b':
        dt = 'i'
    elif name == 'prod':
        dt = 'i' if x.dt == 'b' else x.dt
        if x.lit if False else (isinstance(deg, Fraction) and deg != 0):
            k = None
            if noax and nd is not None:
                p = ONE
                for q in x.shape:
                    p = p * q if q is not None else Poly.atom('?')
                k = p.as_int()
            elif ax is not None and nd is not None and x.shape[ax] is not None:
                k = x.shape[ax].as_int()
            deg = deg * k if k is not None else None
        tw = 0 if x.tw == 0 else None
    elif name == 'var' and isinstance(deg, Fraction):
        deg = 2 * deg
    hax, tax = x.ex('hax'), x.ex('tax')
    if x.deg == 'H' and hax is not None and (noax or ax == hax) and name not in ('all', 'any', 'count_nonzero'):
        deg = 'X'       # amounts of different units are compared or added
    if x.tw is None and tax is not None and (noax or ax == tax) and name in ('max', 'min', 'amax', 'amin', 'argmax', 'argmin', 'argsort', 'median'):
        tw = 'T'        # positions are compared with fixed numbers
    if x.ex('along') and lin and nd is not None and ax == nd - 1:
        tw = 'T'
    if deg == 'H':
        deg = None
    sy = [x.sym] + ([] if noax else [T.mk('axis', ax if ax is not None else axis.sym)]) + list(args)
    v = V('num' if x.kind == 'num' or shape == () else 'top', shape=shape, deg=deg, tw=tw, row=row, dt=dt,
          deps=x.deps | (axis.deps if axis is not None else E0), sym=T.mk('red', name, *sy, bool(keep)))
    lit = x.ex('lit')
    if lit and name in ('prod', 'sum') and shape == () and all(l.poly is not None for l in lit):
        p = lit[0].poly
        for l in lit[1:]:
            p = p * l.poly if name == 'prod' else p + l.poly
        v.poly = p
    if x.sp and shape is not None and len(shape) == 1 and not keep:
        v.shape, v.kind = None, 'top'      # matrix vs array flavour
        if x.sp == 'm' and ax in (0, 1):
            v = v.wex(asarr=(ONE,) + shape if ax == 0 else shape + (ONE,))
    return v


def concat(I, st, items, ax, n, path, stack=False):
    its = [to_array(I, st, x, n) if x.kind in ('tuple', 'list', 'range') else x for x in items]
    if not its:
        return top(sym=T.mk('concat', path))
    from .interp import jdeg_store
    deg, tw, dt, row = its[0].deg, its[0].tw, its[0].dt, its[0].row
    kind = 'num' if all(x.kind == 'num' for x in its) else 'top'
    shape = None
    if all(x.shape is not None for x in its):
        nd = len(its[0].shape)
        if all(len(x.shape) == nd for x in its):
            if stack:
                base = its[0].shape
                for x in its[1:]:
                    base = tuple(a if a == b or b is None else b if a is None else a for a, b in zip(base, x.shape))
                if ax is not None:
                    a = ax if ax >= 0 else ax + nd + 1
                    shape = base[:a] + (Poly.c(len(its)),) + base[a:]
            elif ax is not None:
                a = ax if ax >= 0 else ax + nd
                if a < nd:
                    out = []
                    for k in range(nd):
                        if k == a:
                            s = Poly.c(0)
                            for x in its:
                                s = s + x.shape[k] if s is not None and x.shape[k] is not None else None
                            out.append(s)
                        else:
                            ks = [x.shape[k] for x in its]
                            cs = {q for q in ks if q is not None}
                            consts = [q for q in cs if q.as_int() is not None]
                            if len(set(consts)) > 1:
                                I.ev('shape_mismatch', n, st, a=str([str(q) for q in ks]), b='', op=path)
                            elif all(x.kind == 'num' for x in its):
                                for q in cs:
                                    if clash(st, q, ks[0], False):
                                        I.ev('shape_generic', n, st, a=str([str(q) for q in ks]), b='', op=path)
                                        break
                            out.append(consts[0] if consts else (ks[0] if len(cs) == 1 and None not in ks else None))
                    shape = tuple(out)
        elif not stack:
            cs = [len(x.shape) for x in its]
            I.ev('shape_mismatch', n, st, a=str(cs), b='', op=path)
    for x in its[1:]:
        deg = jdeg_store(deg, x.deg)
        tw = same_tw(tw, x.tw)
        dt = prom(dt, x.dt)
        if row != x.row:
            row = jrow2(row, x.row)
    if its and any(isinstance(x.row, tuple) for x in its):
        if stack and isinstance(row, tuple) and row[0] in ('A', 'S') and ax is not None and shape is not None:
            a = ax if ax >= 0 else ax + len(shape)
            row = (row[0], row[1] + (1 if a <= row[1] else 0)) + row[2:]
        elif not stack and isinstance(row, tuple) and row[0] in ('A', 'S'):
            a = None if ax is None else (ax if ax >= 0 else (ax + len(shape) if shape is not None else None))
            if a is None or a == row[1]:
                row = row if len(its) == 1 else None
    if isinstance(tw, tuple):
        if tw[2][0] == 'v' and shape is not None and ax is not None:
            a = ax if ax >= 0 else ax + len(shape)
            if stack:
                vpos = len(shape) - 1 + tw[2][1]
                vpos += 1 if a <= vpos else 0
                tw = ('P', tw[1], ('v', vpos - len(shape)))
            elif len(shape) + tw[2][1] == a and len(its) > 1:
                tw = None
        elif tw[2][0] != 'c':
            tw = None
    elif tw is None and stack and all(isinstance(x.tw, tuple) and x.tw[2][0] == 'c' for x in its):
        if [x.tw[2][1] for x in its] == list(range(len(its))) and len({x.tw[1] for x in its}) == 1 and shape is not None:
            a = ax if ax >= 0 else ax + len(shape)
            tw = ('P', its[0].tw[1], ('v', a - len(shape)))
    if tw is None and not stack and shape is not None and ax in (-1, len(shape) - 1) and any(x.tw == 0 for x in its) \
            and len({x.tw for x in its if x.tw != 0}) == 1 and all(
                x.shape is not None and len(x.shape) == len(shape) and
                (x.tw == 0 or isinstance(x.tw, tuple) and not varying(x.tw) and x.tw[2] == ('v', -1)) for x in its):
        tw = pad_tw(its)
    if tw is None and shape is not None and ax is not None and (ax if ax >= 0 else ax + len(shape)) < len(shape) - 1 \
            and all(x.shape for x in its):
        tw = mix_tw(its, T.mk('stack', *[x.sym for x in its]))
    ex = None
    if stack and shape is not None and len(shape) == 1:
        ex = {'lit': lit_of(its)}
    if shape is not None and ax is not None:
        a = ax if ax >= 0 else ax + len(shape)
        if deg == 'H' and len({x.deg for x in its if isinstance(x.deg, Fraction)}) > 1:
            ex = dict(ex or {}, hax=a)
        if any(isinstance(x.tw, tuple) for x in its) and any(x.tw == 0 and (isinstance(x.deg, Fraction) or x.deg == 'Z' and x.const is NOC) for x in its):
            ex = dict(ex or {}, tax=a)
    return V(kind, shape=shape, deg=deg, tw=tw, dt=dt, row=row, deps=udeps(its), extra=ex,
             sym=T.mk('stack' if stack else 'concat', ax if ax is not None else -99, *[x.sym for x in its]))


def permute(o, axes, sym):
    """View of o with its axes in the given order."""
    ks = [a.as_int() if a is not None else None for a in axes] if axes is not None else None
    if o.shape is None or ks is None or sorted(k if k is not None else -1 for k in ks) != list(range(len(o.shape))):
        return o.w(kind='top', shape=None, sym=sym, row=o.row if o.row in ('I', 'M') else None,
                   tw=o.tw if o.tw in (0, 'T') else None, base=o.base + ((o.aid,) if o.aid else ()), aid=None,
                   const=NOC, extra=None)
    if ks == list(reversed(range(len(ks)))):
        return transpose(o)
    row, tw, nd = o.row, o.tw, len(ks)
    if isinstance(row, tuple) and row[0] in ('A', 'S'):
        row = (row[0], ks.index(row[1])) + row[2:]
    if isinstance(tw, tuple) and tw[2][0] == 'v':
        tw = ('P', tw[1], ('v', ks.index(nd + tw[2][1]) - nd))
    return o.w(shape=tuple(o.shape[k] for k in ks), row=row, tw=tw, sym=T.mk('perm', o.sym, *ks),
               base=o.base + ((o.aid,) if o.aid else ()), aid=None, const=NOC, extra=None)


def prodshape(s):
    if s is None or any(x is None for x in s):
        return None
    p = ONE
    for x in s:
        p = p * x
    return p


def divmono(p, q):
    """p / q for a monomial q that divides every term of p."""
    if p is None or q is None or len(q.d) != 1:
        return None
    (mono, c), = q.d.items()
    out = {}
    for k, v in p.d.items():
        k = list(k)
        for a in mono:
            if a not in k:
                return None
            k.remove(a)
        out[tuple(k)] = v / c
    r = Poly(out)
    return r if all(v.denominator == 1 for v in r.d.values()) else None


def reshape(I, st, o, shp, n, order=None):
    ns = None
    if shp is not None:
        ns = list(shp)
        neg = [i for i, p in enumerate(ns) if p is not None and p.as_int() == -1]
        if len(neg) == 1:
            rest = ONE
            for i, p in enumerate(ns):
                if i != neg[0]:
                    rest = rest * p if rest is not None and p is not None else None
            ns[neg[0]] = divmono(prodshape(o.shape), rest) if not o.sp else None
        elif not neg and o.kind == 'num' and not o.sp:
            x, y = prodshape(o.shape), prodshape(tuple(ns))
            if x is not None and y is not None and x != y and (x.as_int() is not None and y.as_int() is not None or clash(st, x, y, False)):
                I.ev('shape_mismatch', n, st, a=str(o.shape), b=str(tuple(ns)), op='reshape')
        ns = tuple(ns)
    row = o.row
    tw = o.tw
    if ns != o.shape:
        if isinstance(row, tuple) and row[0] in ('A', 'S'):
            k = row[1]
            ok = ns is not None and o.shape is not None and k == 0 and ns and ns[0] is not None and ns[0] == o.shape[0] \
                and not ns[0].is_const()
            row = row if ok and order is None else None
        if isinstance(tw, tuple):
            ok = ns is not None and o.shape is not None and tw[2] == ('v', -1) and ns and ns[-1] is not None \
                and o.shape and ns[-1] == o.shape[-1] and order is None
            tw = tw if ok else (tw if tw[2][0] == 'c' else None)
    sy = T.mk('reshape', o.sym, *[repr(p) for p in ns] if ns is not None else ['?'],
              order.sym if order is not None else -1)
    if ns is None:
        sy = T.mk('reshape', o.sym, T.fresh('shape'))
    if ns is not None and ns == o.shape:
        sy = o.sym
    kind = o.kind if ns is not None else 'top'
    return o.w(kind=kind, shape=ns, row=row, tw=tw, sym=sy, base=o.base + ((o.aid,) if o.aid else ()), aid=None,
               const=NOC, extra=None)


def copyv(o, why='copy'):
    if o.kind in ('list', 'dict', 'set'):
        return o.w(aid=new_aid(), roots=E0 if o.kind != 'list' else E0, base=())
    return o.w(roots=E0, base=(), aid=None)


def may_alias(o, **kw):
    """A value that may be the same object as o."""
    return o.w(**kw)


def flat(o):
    p = prodshape(o.shape)
    row, tw = o.row, o.tw
    if o.shape is None or len(o.shape) != 1:
        if isinstance(row, tuple) and row[0] in ('A', 'S'):
            row = None
        if isinstance(tw, tuple) and tw[2][0] == 'v':
            tw = None
    return o.w(kind='num' if o.kind == 'num' else 'top', shape=(p,), row=row, tw=tw,
               sym=o.sym if o.shape is not None and len(o.shape) == 1 else T.mk('reshape', o.sym, 'flat', -1),
               base=o.base + ((o.aid,) if o.aid else ()), aid=None, const=NOC,
               extra=None if not (o.shape is not None and len(o.shape) == 1) else o.extra)


def squeeze(o):
    if o.shape is None:
        return o.w(base=o.base + ((o.aid,) if o.aid else ()), aid=None, sym=T.mk('squeeze', o.sym), row=None,
                   tw=o.tw if o.tw in (0, 'T') else None)
    if any(p is None or (not p.is_const()) for p in o.shape):
        # a symbolic axis may itself have length one
        sh = None
        if not any(p is not None and p == ONE for p in o.shape):
            return o.w(base=o.base + ((o.aid,) if o.aid else ()), aid=None).wex(squeezed=True)
        row = o.row
        if isinstance(row, tuple) and row[0] in ('A', 'S') and any(p == ONE for p in o.shape[:row[1]]):
            row = (row[0], row[1] - sum(1 for p in o.shape[:row[1]] if p == ONE)) + row[2:]
        keep = tuple(p for p in o.shape if not (p is not None and p == ONE))
        return o.w(shape=keep, row=row, tw=o.tw if o.tw in (0, 'T') else None, sym=T.mk('squeeze', o.sym),
                   base=o.base + ((o.aid,) if o.aid else ()), aid=None, extra={'squeezed': True})
    keep = tuple(p for p in o.shape if p != ONE)
    return o.w(shape=keep, row=o.row if o.row in ('I', 'M') else None, tw=o.tw if o.tw in (0, 'T') else None,
               sym=T.mk('squeeze', o.sym), base=o.base + ((o.aid,) if o.aid else ()), aid=None, extra=None)


def elementwise(name, vs, dt='f', **kw):
    shape, bad = vs[0].shape, False
    for v in vs[1:]:
        shape, bad = bshape(shape, v.shape)
    row = vs[0].row
    if len(vs) == 2:
        row = rowb(vs[0], vs[1])
    elif len(vs) > 2:
        row = rows_of(vs)
    kind = 'num' if all(v.kind == 'num' for v in vs) else 'top'
    r = V(kind, shape=shape, dt=dt, row=row, deps=udeps(vs), sym=T.mk('ew', name, *[v.sym for v in vs]))
    for k, x in kw.items():
        setattr(r, k, x)
    if kind == 'top' and all(v.ex('scalar') or is_sc(v) for v in vs):
        r = r.wex(scalar=True)
    if any(v.sp for v in vs):
        r.sp = True
    if r.tw == 'T':
        r = r.wex(curved=True)     # not linear in the position: a sum cannot cancel it
    return r


DEG0 = {'sin', 'cos', 'tan', 'exp', 'log', 'log2', 'log10', 'log1p', 'expm1', 'sinh', 'cosh', 'tanh', 'arccos', 'arcsin',
        'arctan', 'floor', 'ceil', 'round', 'rint', 'around', 'trunc', 'deg2rad', 'rad2deg', 'radians', 'degrees',
        'exp2', 'arccosh', 'arcsinh', 'arctanh', 'erf', 'expit', 'fix', 'isclose', 'allclose'}
RED = {'sum': 'sum', 'mean': 'mean', 'max': 'max', 'min': 'min', 'amax': 'max', 'amin': 'min', 'all': 'all', 'any': 'any',
       'prod': 'prod', 'argmax': 'argmax', 'argmin': 'argmin', 'std': 'std', 'var': 'var', 'median': 'median',
       'count_nonzero': 'count_nonzero', 'average': 'average', 'nanmax': 'max', 'nanmin': 'min', 'nansum': 'sum',
       'nanmean': 'mean', 'product': 'prod', 'ptp': 'ptp'}
LOGIC = {'logical_and': '&', 'logical_or': '|', 'logical_xor': '^', 'bitwise_and': '&', 'bitwise_or': '|'}
CMP = {'equal': ast.Eq, 'not_equal': ast.NotEq, 'less': ast.Lt, 'less_equal': ast.LtE, 'greater': ast.Gt,
       'greater_equal': ast.GtE}
ARITH = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult, 'divide': ast.Div, 'true_divide': ast.Div,
         'power': ast.Pow, 'matmul': ast.MatMult, 'mod': ast.Mod, 'remainder': ast.Mod, 'floor_divide': ast.FloorDiv,
         'float_power': ast.Pow}
ALIAS_FN = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d',
            'require', 'asarray_chkfinite'}
WRITES0 = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis'}
RNG_METHODS = {'random', 'uniform', 'normal', 'choice', 'integers', 'shuffle', 'permutation', 'standard_normal',
               'exponential', 'rand', 'randn', 'randint', 'poisson', 'permuted', 'beta', 'gamma', 'multivariate_normal',
               'random_sample', 'dirichlet', 'binomial', 'bytes', 'spawn'}
SPM = {'csr_matrix', 'csc_matrix', 'coo_matrix', 'csr_array', 'csc_array', 'coo_array', 'lil_matrix', 'dok_matrix',
       'bsr_matrix', 'dia_matrix', 'dia_array', 'lil_array'}


def safe(f):
    def g(I, st, *a, **k):
        try:
            return f(I, st, *a, **k)
        except (RecursionError, KeyboardInterrupt):
            raise
        except Exception as e:
            from .interp import PathDead
            if isinstance(e, PathDead):
                raise
            if I.opts.get('strict'):
                raise
            I.internal.append((f.__name__, repr(e)))
            return top(sym=T.fresh('internal'))
    return g


_getitem, _setitem, _binop, _compare, _attribute, _unary = getitem, setitem, binop, compare, attribute, unary
getitem, binop, compare, unary = safe(_getitem), safe(_binop), safe(_compare), safe(_unary)


def setitem(I, st, o, idx, v, node, aug):
    try:
        return _setitem(I, st, o, idx, v, node, aug)
    except Exception as e:
        if I.opts.get('strict'):
            raise
        I.internal.append(('setitem', repr(e)))
        return o.w(sym=T.fresh('store'), deps=o.deps | idx.deps | v.deps, deg=None, tw=None, row=None, extra=None)


REDUCING = {'sum', 'prod', 'mean', 'std', 'var', 'min', 'max', 'amin', 'amax', 'any', 'all', 'nansum', 'nanmean', 'nanmin', 'nanmax',
            'reduce', 'count_nonzero', 'average'}


def masked(kw):
    w = kw.get('where')
    return w if w is not None and w.const is not True and w.kind != 'none' else None


UFUNC1 = {'negative', 'positive', 'absolute', 'abs', 'fabs', 'rint', 'sign', 'conj', 'conjugate', 'exp', 'exp2', 'log', 'log2', 'log10', 'expm1',
          'log1p', 'sqrt', 'square', 'cbrt', 'reciprocal', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh',
          'arcsinh', 'arccosh', 'arctanh', 'degrees', 'radians', 'deg2rad', 'rad2deg', 'invert', 'bitwise_not', 'logical_not', 'isfinite',
          'isinf', 'isnan', 'signbit', 'floor', 'ceil', 'trunc', 'spacing'}
UFUNC2 = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'power', 'float_power', 'remainder', 'mod', 'fmod', 'hypot',
          'arctan2', 'maximum', 'minimum', 'fmax', 'fmin', 'logical_and', 'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or',
          'bitwise_xor', 'left_shift', 'right_shift', 'greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal', 'copysign',
          'heaviside', 'matmul', 'nextafter', 'gcd', 'lcm', 'ldexp', 'logaddexp'}
OUTPOS = {'clip': 3, 'dot': 2, 'round': 2, 'around': 2, 'sum': 3, 'prod': 3, 'cumsum': 3, 'cumprod': 3, 'mean': 3, 'max': 2, 'min': 2,
          'amax': 2, 'amin': 2, 'take': 3, 'any': 2, 'all': 2, 'concatenate': 2, 'stack': 2, 'argmax': 2, 'argmin': 2, 'outer': 2, 'choose': 2,
          'compress': 3, 'std': 3, 'var': 3, 'median': 2, 'ptp': 2, 'fix': 1, 'isposinf': 1, 'isneginf': 1, 'nan_to_num': None}


def out_position(path):
    """Index of the positional out parameter of a numpy function."""
    if not path.startswith('numpy.') or path.count('.') != 1:
        return None
    f = path[6:]
    return 1 if f in UFUNC1 else 2 if f in UFUNC2 else OUTPOS.get(f)


# functions for which an infinite entry is no position
KEEPS_INF = {'full', 'full_like', 'repeat', 'append', 'insert', 'where', 'maximum', 'minimum', 'fmax', 'fmin', 'max', 'min', 'amax', 'amin',
             'column_stack', 'flatten', 'ravel', 'transpose', 'zip', 'enumerate', 'list', 'tuple'}
# functions of a position that depend on it whatever it is multiplied by
NOT_AFFINE = {'abs', 'absolute', 'fabs', 'sqrt', 'square', 'cbrt', 'power', 'norm', 'arctan2', 'hypot', 'sign', 'sin', 'cos', 'tan', 'exp', 'log',
              'arccos', 'arcsin', 'arctan', 'floor', 'ceil', 'round', 'maximum', 'minimum', 'max', 'min', 'amax', 'amin', 'argmax', 'argmin', 'argsort',
              'sort', 'clip', 'cross'}
# functions that only rearrange or combine linearly, entry by entry
KEEPS_WEIGHTS = {'reshape', 'tile', 'array', 'asarray', 'copy', 'broadcast_to', 'expand_dims', 'squeeze', 'ascontiguousarray', 'add',
                 'subtract', 'multiply', 'divide', 'true_divide', 'negative', 'astype', 'concatenate', 'vstack', 'hstack', 'stack'}


@safe
def ext_call(I, st, path, args, kw, n, star):
    for pre in ('numpy.core.', 'numpy._core.'):
        if path.startswith(pre):
            path = 'numpy.' + path.split('.')[-1]
    root = path.split('.')[0]
    if I.opts.get('quiet') and root not in ('numpy', 'scipy', 'builtins'):
        # the verbosity flag may be handed to native code and external solvers
        q = I.opts['quiet']
        args = [v.w(deps=E0) if v.deps and v.deps <= q else v for v in args]
        kw = {k: v.w(deps=E0) if v.deps and v.deps <= q else v for k, v in kw.items()}
    if path.split('.')[-1] not in KEEPS_WEIGHTS:
        inf = path.split('.')[-1] in KEEPS_INF
        rid = blur_tw if path.split('.')[-1] in NOT_AFFINE else plain_tw
        args = [v if inf and v.tw == 'N' else rid(v) for v in args]
        kw = {k: v if inf and v.tw == 'N' else rid(v) for k, v in kw.items()}
    vs = list(args) + list(kw.values())
    if root in NATIVE:
        return native(I, st, path, args, kw, n)
    if root == 'builtins':
        from . import npbuiltin
        return npbuiltin.call(I, st, path[9:], args, kw, n, star)
    if path.startswith(('numpy.random.', 'random.')):
        return random_call(I, st, path, args, kw, n)
    if root in ('os', 'shutil', 'pathlib', 'tempfile', 'subprocess', 'io', 'sys', 'logging', 'warnings', 'time',
                'itertools', 'functools', 'copy', 'math', 'csv', 'struct', 'importlib', 'pickle', 'json', 'urllib', 'socket',
                'glob', 'platform', 'uuid', 'secrets', 'datetime', 'getpass', 'locale', 'signal', 'gc', 'threading', 'multiprocessing', 'atexit'):
        from . import npbuiltin
        return npbuiltin.stdlib(I, st, path, args, kw, n)
    out = kw.get('out')
    pos = out_position(path)
    if out is None and pos is not None and len(args) > pos and not star:
        out = args[pos]
        args = args[:pos] + args[pos + 1:]
    if out is not None and out.kind not in ('none',):
        k2 = {k: v for k, v in kw.items() if k != 'out'}
        part = masked(kw)
        k2.pop('where', None)
        r = ext_call(I, st, path, args, k2, n, star)
        if part is not None:
            # entries outside the mask keep what they held
            from .interp import jdeg_store
            o = out.items[0] if out.kind == 'tuple' and out.items else out
            I.filled(o, 'out', part, node=n)
            r = r.w(deps=r.deps | o.deps | part.deps, sym=T.mk('masked', r.sym, o.sym, part.sym), const=NOC, poly=None,
                    deg=jdeg_store(r.deg, o.deg), tw=r.tw if r.tw == o.tw else None, row=r.row if r.row == o.row else None, shape=o.shape)
        for o in (out.items if out.kind == 'tuple' and out.items else (out,)):
            I.mutate(st, o, n, f'out= of {path}' if part is None else 'item assignment', [r], r.w(roots=o.roots, base=o.base, aid=o.aid))
        return r.w(roots=out.roots, base=out.base, aid=out.aid)
    if kw.get('overwrite_a') is not None or kw.get('overwrite_b') is not None or kw.get('overwrite_input') is not None:
        for nm, i in (('overwrite_a', 0), ('overwrite_input', 0), ('overwrite_b', 1)):
            f = kw.get(nm)
            if f is not None and f.const is True and i < len(args):
                I.mutate(st, args[i], n, f'{nm} of {path}', [])
    a = path.split('.')
    if a[0] in ('numpy', 'scipy'):
        from . import npfuncs
        part = masked(kw) if a[-1] not in REDUCING else None
        if part is not None:
            kw = {k: v for k, v in kw.items() if k != 'where'}
        r = npfuncs.call(I, st, path, a[-1], Args(args, kw), args, kw, n, star)
        if r is not None and part is not None:
            m = I.uninit(n, path + '(where=)')
            I.fills[sorted(m)[0]].append(((('mask', part.sym),), n, I.callstack[-1] if I.callstack else ''))
            r = r.w(deps=r.deps | m | part.deps, sym=T.mk('masked', r.sym, part.sym), const=NOC, poly=None,
                    tw=None if r.tw not in (0, 'T') else r.tw)
        if r is not None:
            return r
    I.unknown_calls[path] = I.unknown_calls.get(path, 0) + 1
    if path.startswith(('matplotlib.pyplot.imread', 'skimage.io.imread', 'imageio.', 'PIL.')):
        I.ev('fs', n, st, name=path, file=args[0] if args else None)
    if path.startswith(('numpy.savetxt', 'numpy.save', 'numpy.tofile', 'scipy.io', 'matplotlib', 'skimage.io.imsave')):
        I.ev('fs', n, st, name=path, file=args[0] if args else None)
    return top(deps=udeps(vs), sym=csym(path, args, kw), row='I' if vs and all(v.row == 'I' for v in vs) else None,
               deg=None)


def native(I, st, path, args, kw, n):
    name = path.split('.')[-1]
    I.ev('native_call', n, st, name=name, module=path.split('.')[0], nargs=len(args), kw=tuple(sorted(kw)),
         syms=tuple(a.sym for a in args), vals=(list(args), dict(kw)))
    hook = I.opts.get('native')
    sym = csym('native:' + name, args, kw)
    if hook:
        r = hook(I, st, name, args, kw, n, sym)
        if r is not None:
            return r
    vs = list(args) + list(kw.values())
    # arguments are read only by the extension (C09 checks the binding signatures)
    return top(deps=udeps(vs), sym=sym, extra={'native': name, 'natsym': sym, 'notnone': True})


def random_call(I, st, path, args, kw, n):
    last = path.split('.')[-1]
    vs = list(args) + list(kw.values())
    if last in ('default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'Random', 'MT19937', 'Philox'):
        seeded = bool(vs) and vs[0].kind != 'none'
        I.ev('rng_new', n, st, seeded=seeded, deps=tuple(sorted(udeps(vs))))
        ex = {'rng': 'seeded' if seeded else 'unseeded', 'notnone': True}
        if seeded and vs[0].ex('rng'):
            return vs[0]
        return top(deps=udeps(vs), sym=T.mk('rng', *[v.sym for v in vs]) if seeded else T.fresh('rng'), extra=ex)
    I.ev('global_rng', n, st, name=path)
    if last in ('shuffle',) and args:
        I.mutate(st, args[0], n, path, [])
    r = top(deps=udeps(vs), sym=T.mk('draw', st.rng, csym(path, args, kw)), deg=F0, tw=0)
    st.rng = T.mk('rngnext', st.rng, csym(path, args, kw))
    return r


@safe
def attribute(I, st, o, attr, n):
    if o.ex('rng'):
        return None
    r = _attribute(I, st, o, attr, n)
    if r is not None:
        return r
    if o.kind == 'top' and o.ex('native') and attr in ('dim', 'order'):
        return V('num', shape=(), dt='i', deg=F0, tw=0, row='I', sym=T.mk('attr', o.sym, attr), deps=o.deps)
    return None


@safe
def method_call(I, st, o, name, args, kw, n, star):
    from . import npmethods
    if name not in KEEPS_WEIGHTS and not (name in KEEPS_INF and o.tw == 'N'):
        o, args, kw = plain_tw(o), [plain_tw(v) for v in args], {k: plain_tw(v) for k, v in kw.items()}
    return npmethods.call(I, st, o, name, args, kw, n, star)
