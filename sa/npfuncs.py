"""Transfer functions for numpy.* and scipy.* functions."""
import ast
from fractions import Fraction
from .terms import T, Poly
from .values import V, NOC, Other, E0, const, tup, top, intv, udeps, uroots, joinv, jshape, new_aid
from .npcore import (clash, generic_clash, cnum, is_sc, directional, varying, F0, F1, ONE, transpose, jrow2, prom, bshape, mul_deg, nonlin_tw, rowb, rows_of,
                     add_deg, binsym, shift_row)
from . import npmodel as M


def arr(I, st, v, n):
    return M.to_array(I, st, v, n) if v is not None and v.kind in ('tuple', 'list', 'range') else v


def dot(I, st, a, b, n):
    if is_sc(a) or is_sc(b):
        return M.binop(I, st, ast.Mult(), a, b, n)
    if a.sp or b.sp or (a.ndim is not None and b.ndim is not None and a.ndim <= 2 and b.ndim <= 2):
        return M.matmul(I, st, a, b, n)
    return V('num' if a.kind == b.kind == 'num' else 'top', deps=a.deps | b.deps, deg=mul_deg(a.deg, b.deg),
             tw=0 if a.tw == 0 and b.tw == 0 else None, row='I' if a.row == b.row == 'I' else None,
             dt=prom(a.dt, b.dt), sym=T.mk('bin', '@', a.sym, b.sym), shape=None).w(kind='top')


def call(I, st, path, last, A, args, kw, n, star):
    vs = list(args) + list(kw.values())
    deps = udeps(vs)
    x = args[0] if args else None
    sym = M.csym(path, args, kw)
    if star and x is not None and len(args) == 1 and args[0].kind == 'top':
        return top(deps=deps, sym=sym)
    sub = path.split('.')
    if sub[0] == 'scipy':
        return scipy_call(I, st, path, last, sub, A, args, kw, n, deps, sym)
    if len(sub) > 2 and sub[1] == 'linalg':
        return linalg(I, st, last, A, args, kw, n, deps, sym)
    if len(sub) > 2 and sub[-1] in ('at', 'reduce', 'accumulate', 'outer', 'reduceat'):
        if last == 'at' and args:
            tgt = args[0]
            val = args[2] if len(args) > 2 else const(1)
            idx = args[1]
            from .interp import jdeg_store
            if tgt.dt == 'i' and val.dt == 'f' and tgt.kind == 'num':
                I.ev('int_store_float', n, st, why=path)
            new = tgt.w(sym=T.mk('ufuncat', sub[-2], *[a.sym for a in args]), deps=deps, const=NOC, poly=None, extra=None,
                        row='I' if all(v.row == 'I' for v in args) else None,
                        deg=jdeg_store(tgt.deg, val.deg), tw=tgt.tw if tgt.tw == val.tw == 0 else None)
            I.mutate(st, tgt, n, path, list(args), new)
            return const(None)
        if last == 'reduce' and x is not None:
            nm = {'maximum': 'max', 'minimum': 'min', 'add': 'sum', 'multiply': 'prod', 'logical_and': 'all', 'logical_or': 'any'}.get(sub[-2])
            if nm:
                ax = A.get(1, 'axis')
                return M.reduce_(I, st, nm, arr(I, st, x, n), ax if ax is not None else const(0), n)
        return top(deps=deps, sym=sym)
    if len(sub) > 2 and sub[1] not in ('random',):
        if last == 'as_strided' or sub[1] == 'lib':
            return top(deps=deps, roots=uroots(vs), sym=sym)
        return None
    f = globals().get('n_' + last)
    if last in M.RED and args:
        ax = A.get(1, 'axis')
        keep = A.get(None, 'keepdims')
        extra = [kw[k].sym for k in ('weights', 'where', 'initial', 'ddof') if k in kw]
        r = M.reduce_(I, st, M.RED[last], arr(I, st, x, n), ax, n, keep is not None and keep.const is True, extra)
        return r.w(deps=deps)
    if last in M.ARITH and len(args) >= 2:
        return M.binop(I, st, M.ARITH[last](), arr(I, st, args[0], n), arr(I, st, args[1], n), n)
    if last in M.CMP and len(args) >= 2:
        return I.compare_one(M.CMP[last](), args[0], args[1], n, st)
    if last in M.LOGIC and len(args) >= 2:
        op = {'&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor}[M.LOGIC[last]]
        r = M.binop(I, st, op(), arr(I, st, args[0], n), arr(I, st, args[1], n), n)
        return r.w(dt='b') if last.startswith('logical') else r
    if last in M.WRITES0 and args:
        tgt = args[0]
        new = tgt.w(sym=sym, deps=deps, const=NOC, poly=None, deg=None, tw=None, row=None, extra=None)
        if last == 'fill_diagonal' and len(args) > 1:
            from .interp import jdeg_store
            new.deg = jdeg_store(tgt.deg, args[1].deg)
        I.mutate(st, tgt, n, path, list(args), new)
        return const(None)
    if f is not None:
        return f(I, st, A, args, kw, n, deps, sym, path, last)
    if last in M.DTS and args:
        d = M.DTS[last]
        return M.cast(I, st, arr(I, st, x, n), d, n).w(roots=E0, base=(), aid=None)
    if last in M.DEG0 and args:
        x = arr(I, st, x, n)
        if x.kind not in ('num', 'top'):
            return top(deps=deps, sym=sym)
        d = x.deg
        if isinstance(d, Fraction):
            if d != 0:
                I.ev('deg_nonlinear', n, st, what=last, a=str(d))
                d = 'X'
        elif d == 'Z':
            d = F0 if last not in ('floor', 'ceil', 'round', 'rint') else 'Z'
        tw = nonlin_tw(x)
        c = cnum(x)
        if c is not None and last in ('floor', 'ceil', 'round', 'sin', 'cos', 'exp', 'log', 'log2', 'deg2rad'):
            import math
            try:
                r = {'floor': math.floor, 'ceil': math.ceil, 'round': round, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp,
                     'log': math.log, 'log2': math.log2, 'deg2rad': math.radians}[last](c)
                return const(float(r)).w(deps=deps)
            except Exception:
                pass
        return M.elementwise(last, [x], dt='f' if x.dt in ('f', 'i', 'b', None) else None, deg=d, tw=tw)
    return None


# ---------------------------------------------------------------- creation
def n_array(I, st, A, args, kw, n, deps, sym, path, last):
    dv = A.get(1, 'dtype')
    d = M.dtype_of(dv)
    x = args[0] if args else A.get(0, 'object')
    cp = kw.get('copy')
    if x is None:
        return None
    r = M.to_array(I, st, x, n, d)
    if dv is not None and dv.kind != 'none':
        r = r.w(dt=d)
        if M.dtype_name(dv):
            r = r.wex(dtn=(M.dtype_name(dv), r.sym))
    if cp is not None and (cp.const is False or cp.kind == 'none'):
        r = r.w(roots=x.roots, base=x.base + ((x.aid,) if x.aid else ()))
    nm = A.get(None, 'ndmin')
    if nm is not None:
        r = r.w(kind='top', shape=None)
    return r.w(deps=deps)


def _alias(I, st, A, args, kw, n, deps, sym, path, last):
    x = args[0] if args else A.get(0, 'a')
    dv = A.get(1, 'dtype') if not last.startswith('atleast') else None
    d = M.dtype_of(dv)
    if last.startswith('atleast') and len(args) > 1:
        return tup([_alias(I, st, M.Args([a], {}), [a], {}, n, a.deps, sym, path, last) for a in args], 'list')
    if x.kind in ('tuple', 'list', 'range'):
        r = M.to_array(I, st, x, n, d)
    else:
        r = x
        if d is not None:
            r = M.cast(I, st, x, d, n, dv.sym)
    if dv is not None and M.dtype_name(dv):
        r = r.wex(dtn=(M.dtype_name(dv), r.sym))
    if last.startswith('atleast'):
        k = int(last[8])
        if r.shape is not None and len(r.shape) < k:
            row, tw = r.row, r.tw
            if len(r.shape) == 0:
                sh = (ONE,) * k
            elif len(r.shape) == 1:
                sh = (ONE,) + r.shape if k == 2 else (ONE, r.shape[0], ONE)
                row = shift_row(row, 1)
            else:
                sh = r.shape + (ONE,)
                tw = tw if tw in (0, 'T') else None
            r = r.w(shape=sh, sym=T.mk('call', path, r.sym), row=row, tw=tw, extra=None, const=NOC, poly=None)
        elif r.shape is None:
            r = r.w(sym=T.mk('call', path, r.sym))
    if last == 'asarray' and r.kind == 'top' and not r.ex('notnone') and x.kind == 'top' and x.ex('maybe_none'):
        e = dict(r.extra)
        e.pop('maybe_none', None)
        r = r.w(extra=e or None)
    return r.w(deps=deps)


n_asarray = n_asanyarray = n_ascontiguousarray = n_asfortranarray = n_atleast_1d = n_atleast_2d = n_atleast_3d = n_require = \
    n_asarray_chkfinite = _alias


def n_copy(I, st, A, args, kw, n, deps, sym, path, last):
    return M.copyv(arr(I, st, args[0], n)).w(deps=deps)


def _filled(I, st, A, args, kw, n, deps, sym, path, last):
    shp = M.shape_arg(A.get(0, 'shape'))
    dv = A.get(2 if last == 'full' else 1, 'dtype')
    d = M.dtype_of(dv)
    sdeps = A.get(0, 'shape').deps if A.get(0, 'shape') is not None else E0
    kind = 'num' if shp is not None else 'top'
    if last == 'full':
        fv = arr(I, st, A.get(1, 'fill_value'), n)
        row = fv.row if is_sc(fv) and fv.row in ('I', 'M') or isinstance(fv.row, tuple) and fv.row[0] == 'R' else ('I' if fv.row == 'I' else None)
        tw = fv.tw if fv.tw in (0, 'T') else (fv.tw if fv.tw is not None and fv.shape == () else None)
        return V(kind, shape=shp, deg=fv.deg, tw=tw, dt=d or fv.dt, row=row, deps=deps, sym=sym)
    if last == 'ones':
        return V(kind, shape=shp, deg=F0, tw=0, dt=d or ('f' if dv is None else None), row='I', deps=sdeps, sym=sym)
    if last in ('empty', 'ndarray'):
        if shp is None or not any(p is not None and p.as_int() == 0 for p in shp):
            sdeps = sdeps | I.uninit(n, path, shp)
        return V(kind, shape=shp, deg='Z', tw=0, dt=d or ('f' if dv is None else None), row='I', deps=sdeps, sym=sym)
    return V(kind, shape=shp, deg='Z', tw=0, dt=d or ('f' if dv is None else None), row='I', deps=sdeps, sym=sym)


n_zeros = n_ones = n_full = n_empty = n_ndarray = _filled


def _like(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    d = M.dtype_of(A.get(2 if last == 'full_like' else 1, 'dtype')) or x.dt
    base = dict(shape=x.shape, dt=d, row='I', tw=0, deps=I.sizedeps(x.deps), sym=sym)
    k = x.kind
    if last == 'ones_like':
        return V(k, deg=F0, **base)
    if last == 'full_like':
        fv = arr(I, st, A.get(1, 'fill_value'), n)
        if d == 'i' and x.dt == 'i' and fv.dt == 'f':
            I.ev('int_store_float', n, st, why='full_like')
        base.update(deps=I.sizedeps(x.deps) | fv.deps, row='I' if fv.row == 'I' else None, tw=fv.tw if fv.tw in (0, 'N', 'T') else None)
        return V(k, deg=fv.deg, **base)
    if last == 'empty_like':
        base.update(deps=base['deps'] | I.uninit(n, path, x.shape))
    return V(k, deg='Z', **base)


n_zeros_like = n_ones_like = n_empty_like = n_full_like = _like


def n_arange(I, st, A, args, kw, n, deps, sym, path, last):
    cs = args
    dv = kw.get('dtype')
    d = M.dtype_of(dv) if dv is not None else None
    for a in args:
        if a.dt == 'f':
            d = d or 'f'
    L = None
    if len(cs) == 1:
        L = M.dimpoly(cs[0]) if cs[0].dt != 'f' or cnum(cs[0]) is not None else None
    elif len(cs) == 2:
        a, b = M.dimpoly(cs[0]), M.dimpoly(cs[1])
        L = b - a if a is not None and b is not None and cs[0].dt != 'f' else None
    elif len(cs) == 3 and all(cnum(c) is not None for c in cs) and cnum(cs[2]):
        import math
        L = Poly.c(max(0, math.ceil((cnum(cs[1]) - cnum(cs[0])) / cnum(cs[2]))))
    deg = F0
    if any(isinstance(a.deg, Fraction) and a.deg != 0 for a in args):
        deg = None
    return V('num', shape=(L,), dt=d or 'i', deg=deg, tw=0 if all(a.tw == 0 for a in args) else None, row='I' if all(a.row == 'I' for a in args) else None,
             deps=deps, sym=sym)


def n_linspace(I, st, A, args, kw, n, deps, sym, path, last):
    a, b = A.get(0, 'start'), A.get(1, 'stop')
    num = A.get(2, 'num')
    L = M.dimpoly(num) if num is not None else Poly.c(50)
    if a is None or b is None:
        return None
    r = kw.get('retstep')
    deg = a.deg if a.deg == b.deg else b.deg if a.deg == 'Z' else a.deg if b.deg == 'Z' else None
    tw = a.tw if a.tw == b.tw and a.tw is not None and a.shape == b.shape == () else (0 if a.tw == b.tw == 0 else None)
    v = V('num' if a.shape == () and b.shape == () else 'top', shape=(L,) if a.shape == () and b.shape == () else None, dt=(M.dtype_of(kw['dtype']) if kw.get('dtype') is not None else 'f'), deg=deg, tw=tw,
          row='I' if a.row == b.row == 'I' and (num is None or num.row == 'I') else None, deps=deps, sym=sym)
    if r is not None and r.const is not False:
        return tup([v, top(deps=deps, sym=T.mk('step', sym), deg=deg)])
    return v


def n_logspace(I, st, A, args, kw, n, deps, sym, path, last):
    return V('num', shape=(M.dimpoly(A.get(2, 'num')) if A.get(2, 'num') is not None else Poly.c(50),), dt='f', deg=F0, tw=0, row='I',
             deps=deps, sym=sym)


def n_eye(I, st, A, args, kw, n, deps, sym, path, last):
    a = M.dimpoly(args[0])
    b = M.dimpoly(A.get(1, 'M')) if last == 'eye' and A.get(1, 'M') is not None and A.get(1, 'M').kind != 'none' else a
    return V('num', shape=(a, b), dt=M.dtype_of(kw.get('dtype')) or 'f', deg=F0, tw=0, row='I', deps=deps, sym=sym)


n_identity = n_eye


def n_meshgrid(I, st, A, args, kw, n, deps, sym, path, last):
    ij = kw.get('indexing')
    sh = [a.shape[0] if a.shape is not None and len(a.shape) == 1 else None for a in args]
    if len(sh) >= 2 and not (ij is not None and ij.const == 'ij'):
        sh[0], sh[1] = sh[1], sh[0]
    sp = kw.get('sparse') or kw.get('copy')
    return tup([V('num' if all(a.kind == 'num' for a in args) and sp is None else 'top', shape=tuple(sh) if sp is None else None, dt=a.dt, deg=a.deg,
                  tw=a.tw if a.tw in (0, 'T') or isinstance(a.tw, tuple) and a.tw[2][0] == 'c' else None,
                  row='I' if a.row == 'I' else None, deps=deps, sym=T.mk('item', sym, k)) for k, a in enumerate(args)], 'list')


# ---------------------------------------------------------------- shape functions
def n_concatenate(I, st, A, args, kw, n, deps, sym, path, last):
    x = args[0]
    if x.kind in ('tuple', 'list') and x.items is not None:
        axv = A.get(1, 'axis')
        if axv is not None and axv.kind == 'none':
            r = M.concat(I, st, [M.flat(arr(I, st, i, n)) for i in x.items], 0, n, path)
        else:
            ax = cnum(axv) if axv is not None else 0
            r = M.concat(I, st, list(x.items), ax, n, path)
        d = M.dtype_of(kw.get('dtype'))
        return r.w(dt=d or r.dt, deps=deps)
    e = x.elem
    r = top(deps=deps, sym=sym)
    if e is not None and e.kind in ('num', 'top'):
        r.deg, r.dt, r.tw = e.deg, e.dt, e.tw if e.tw in (0, 'T') else None
        if e.shape is not None:
            axv = A.get(1, 'axis')
            ax = cnum(axv) if axv is not None else 0
            if isinstance(ax, int) and len(e.shape) > 0:
                r.kind = 'num'
                r.shape = tuple(Poly.atom(f'cat{x.sym}') if k == ax % len(e.shape) else p for k, p in enumerate(e.shape))
    elif x.kind == 'num':
        r.deg, r.dt = x.deg, x.dt
    return r


def _stackf(I, st, A, args, kw, n, deps, sym, path, last):
    x = args[0]
    its = I.iter_items(x) if x.kind in ('tuple', 'list') else None
    if its is None:
        r = top(deps=deps, sym=sym)
        e = x.elem if x.kind in ('tuple', 'list') else x if x.kind == 'num' else None
        if e is not None:
            r.deg, r.dt, r.tw = e.deg, e.dt, e.tw if e.tw in (0, 'T') else None
            if last in ('stack', 'array', 'vstack') and x.ex('rowlist') and isinstance(e.row, tuple):
                r.row = ('A', 0)
            if e.kind == 'num' and e.shape is not None and last in ('vstack', 'row_stack') and e.ndim in (1, 2):
                r.kind, r.shape = 'num', (Poly.atom(f'cat{x.sym}'), e.shape[-1])
        return r
    its = [arr(I, st, i, n) for i in its]
    if last == 'stack':
        axv = A.get(1, 'axis')
        return M.concat(I, st, its, cnum(axv) if axv is not None else 0, n, path, stack=True)
    if last == 'dstack':
        return V('top', deps=deps, sym=sym)
    if last in ('vstack', 'row_stack'):
        def up(v):
            if v.shape is not None and len(v.shape) < 2:
                return v.w(shape=((ONE, ONE) if not v.shape else (ONE,) + v.shape), row=shift_row(v.row, 1), extra=None)
            return v
        return M.concat(I, st, [up(i) for i in its], 0, n, path)
    if last == 'column_stack':
        def up2(v):
            if v.shape is not None and len(v.shape) == 1:
                return v.w(shape=v.shape + (ONE,), extra=None, tw=v.tw if v.tw in (0, 'T') else None)
            return v
        return M.concat(I, st, [up2(i) for i in its], 1, n, path)
    if all(i.shape is not None for i in its):
        its = [i.w(shape=(ONE,)) if i.shape == () else i for i in its]
        return M.concat(I, st, its, 0 if len(its[0].shape) == 1 else 1, n, path)
    r = M.concat(I, st, its, None, n, path)
    return r


n_stack = n_vstack = n_hstack = n_row_stack = n_column_stack = n_dstack = _stackf


def n_block(I, st, A, args, kw, n, deps, sym, path, last):
    def dep(v):
        return 1 + dep(v.items[0]) if v.kind in ('list', 'tuple') and v.items else 0

    def leaves(v):
        if v.kind in ('list', 'tuple'):
            return [l for i in v.items or () for l in leaves(i)] if v.items is not None else [None]
        return [v]
    d = dep(args[0])
    ls = [arr(I, st, l, n) if l is not None else None for l in leaves(args[0])]
    if not ls or any(l is None or l.shape is None for l in ls):
        dts = {l.dt for l in ls if l is not None} if ls and None not in ls else {None}
        return top(deps=deps, sym=sym, dt=dts.pop() if len(dts) == 1 else None)
    nd = max([d] + [len(l.shape) for l in ls])

    def rec(v, depth):
        if v.kind in ('list', 'tuple'):
            return M.concat(I, st, [rec(i, depth + 1) for i in v.items], depth - d, n, path)
        v = arr(I, st, v, n)
        k = nd - len(v.shape)
        return v.w(shape=(ONE,) * k + v.shape, row=shift_row(v.row, k), extra=None) if k else v
    return rec(args[0], 0).w(deps=deps)


def n_tile(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    reps = M.shape_arg(A.get(1, 'reps'))
    shape, row, tw = None, x.row, x.tw
    if x.shape is not None and reps is not None:
        r, s = list(reps), list(x.shape)
        k = max(len(r), len(s))
        up = k - len(s)
        row = shift_row(row, up)
        s = [ONE] * up + s
        r = [ONE] * (k - len(r)) + r
        shape = tuple(a * b if a is not None and b is not None else None for a, b in zip(s, r))
        if isinstance(row, tuple) and row[0] in ('A', 'S') and not (r[row[1]] is not None and r[row[1]] == ONE):
            row = None
        if isinstance(tw, tuple) and tw[2][0] == 'v':
            ax = k + tw[2][1]
            if not (r[ax] is not None and r[ax] == ONE):
                tw = None
    else:
        row = row if row == 'I' else None
        tw = tw if tw in (0, 'T') else None
    return V('num' if shape is not None and x.kind == 'num' else 'top', shape=shape, deg=x.deg, tw=tw, dt=x.dt, row=row, deps=deps, sym=sym)


def n_repeat(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    r = A.get(1, 'repeats')
    axv = A.get(2, 'axis')
    shape = None
    rp = M.dimpoly(r) if is_sc(r) else None
    tw = x.tw if x.tw in (0, 'T') or isinstance(x.tw, tuple) and x.tw[2][0] == 'c' else None
    if axv is None or axv.kind == 'none':
        p = M.prodshape(x.shape)
        shape = (p * rp if p is not None and rp is not None else None,)
    elif x.shape is not None and M.norm_axis(axv, x.ndim) is not None:
        a = M.norm_axis(axv, x.ndim)
        shape = tuple((p * rp if p is not None and rp is not None else None) if k == a else p for k, p in enumerate(x.shape))
        if isinstance(x.tw, tuple) and x.tw[2][0] == 'v' and x.ndim + x.tw[2][1] != a:
            tw = x.tw
    return V('num' if shape is not None else 'top', shape=shape, deg=x.deg, dt=x.dt, tw=tw,
             row=x.row if x.row in ('I', 'M') else None, deps=deps, sym=sym)


def n_reshape(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    s = A.get(1, 'shape', 'newshape')
    shp = M.shape_arg(s)
    od = A.get(2, 'order')
    if od is not None and od.const == 'C':
        od = None
    return M.reshape(I, st, x, shp, n, od).w(deps=deps)


def n_ravel(I, st, A, args, kw, n, deps, sym, path, last):
    from . import npmethods
    x = arr(I, st, args[0], n)
    return npmethods.call(I, st, x, 'ravel', list(args[1:]), kw, n, False)


def n_squeeze(I, st, A, args, kw, n, deps, sym, path, last):
    return M.squeeze(arr(I, st, args[0], n))


def n_transpose(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    axv = A.get(1, 'axes')
    if axv is not None and axv.kind != 'none':
        return M.permute(x, M.shape_arg(axv), sym).w(deps=deps)
    return transpose(x).w(deps=deps)


def _view(x, sym, deps):
    return x.w(kind='top', shape=None, sym=sym, deps=deps, row=x.row if x.row in ('I', 'M') else None,
               tw=x.tw if x.tw in (0, 'T') else None, base=x.base + ((x.aid,) if x.aid else ()), aid=None, const=NOC, extra=None)


def _viewf(I, st, A, args, kw, n, deps, sym, path, last):
    return _view(arr(I, st, args[0], n), sym, deps)


n_moveaxis = n_rollaxis = n_split = n_array_split = n_rot90 = n_may_share_memory = _viewf


def n_real(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    return x.w(dt='f' if x.dt == 'c' else x.dt, sym=sym, deps=deps, base=x.base + ((x.aid,) if x.aid else ()),
               aid=None, const=NOC, extra=None)


n_imag = n_real


def n_swapaxes(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    if x.shape is not None and len(args) > 2:
        a, b = M.norm_axis(args[1], x.ndim), M.norm_axis(args[2], x.ndim)
        if a is not None and b is not None:
            ax = list(range(x.ndim))
            ax[a], ax[b] = ax[b], ax[a]
            return M.permute(x, [Poly.c(k) for k in ax], sym).w(deps=deps)
    return _view(x, sym, deps)


def n_broadcast_to(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    s = M.shape_arg(A.get(1, 'shape'))
    r = _view(x, sym, deps)
    if s is not None and x.shape is not None:
        k = len(s) - len(x.shape)
        r = r.w(kind=x.kind, shape=tuple(s), row=x.row if not isinstance(x.row, tuple) else None)
        if k >= 0 and isinstance(x.tw, tuple) and x.tw[2][0] == 'v':
            r = r.w(tw=x.tw)
    return r


def n_flip(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    ax = A.get(1, 'axis') if last == 'flip' else const(1 if last == 'fliplr' else 0)
    row = x.row
    a = M.norm_axis(ax, x.ndim) if ax is not None else None
    if isinstance(row, tuple) and row[0] == 'A' and (a is None or a == row[1]):
        row = None
    tw = x.tw
    if isinstance(tw, tuple) and tw[2][0] == 'v':
        tw = tw if a is not None and x.ndim is not None and a != x.ndim + tw[2][1] else None
    return x.w(sym=sym, deps=deps, row=row, tw=tw, base=x.base + ((x.aid,) if x.aid else ()), aid=None, extra=None)


n_fliplr = n_flipud = n_flip


def n_expand_dims(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    a = cnum(A.get(1, 'axis')) if A.get(1, 'axis') is not None else None
    if x.shape is None or not isinstance(a, int):
        return _view(x, sym, deps)
    nd = len(x.shape) + 1
    a = a + nd if a < 0 else a
    row, tw = x.row, x.tw
    if isinstance(row, tuple) and row[0] in ('A', 'S') and row[1] >= a:
        row = (row[0], row[1] + 1) + row[2:]
    if isinstance(tw, tuple) and tw[2][0] == 'v':
        pos = len(x.shape) + tw[2][1]
        pos += 1 if pos >= a else 0
        tw = ('P', tw[1], ('v', pos - nd))
    return x.w(shape=x.shape[:a] + (ONE,) + x.shape[a:], row=row, tw=tw, sym=T.mk('item', x.sym, 'newaxis', a),
               base=x.base + ((x.aid,) if x.aid else ()), aid=None, extra=None, const=NOC, poly=None)


def n_delete(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    ax = A.get(2, 'axis')
    sh = None
    a = M.norm_axis(ax, x.ndim) if ax is not None else None
    if a is not None and x.shape is not None:
        sh = tuple((Poly.atom(f'del{sym}') if k == a else p) for k, p in enumerate(x.shape))
    return V('num' if sh is not None else 'top', shape=sh, deg=x.deg, dt=x.dt, tw=x.tw if x.tw in (0, 'T') else None, deps=deps, sym=sym)


def n_insert(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    return V('top', deg=None, dt=x.dt, deps=deps, sym=sym)


def n_append(I, st, A, args, kw, n, deps, sym, path, last):
    ax = A.get(2, 'axis')
    its = [arr(I, st, args[0], n), arr(I, st, args[1], n)]
    if ax is None or ax.kind == 'none':
        return M.concat(I, st, [M.flat(i) for i in its], 0, n, path)
    return M.concat(I, st, its, cnum(ax), n, path)


def n_roll(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    ax = A.get(2, 'axis')
    a = M.norm_axis(ax, x.ndim) if ax is not None else None
    row = x.row
    if isinstance(row, tuple) and row[0] in ('A', 'S') and (a is None or a == row[1]):
        row = None
    tw = x.tw
    if isinstance(tw, tuple) and tw[2][0] == 'v' and not (a is not None and x.ndim is not None and a != x.ndim + tw[2][1]):
        tw = None
    return V(x.kind, shape=x.shape, deg=x.deg, dt=x.dt, tw=tw, row=row, deps=deps, sym=sym)


def n_pad(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    return V('top', dt=x.dt, deps=deps, sym=sym)


def _tri(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    return V(x.kind, shape=x.shape, deg=x.deg, dt=x.dt, tw=x.tw if x.tw == 0 else None, deps=deps, sym=sym)


n_triu = n_tril = _tri


def n_diag(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    sh = None
    if x.shape is not None and len(args) == 1:
        sh = (x.shape[0], x.shape[0]) if len(x.shape) == 1 else (x.shape[0],) if len(x.shape) == 2 else None
    return V('num' if sh is not None else 'top', shape=sh, deg=x.deg, dt=x.dt, tw=x.tw if x.tw in (0, 'T') else None,
             row=x.row if x.row in ('I', 'M') else None, deps=deps, sym=sym)


n_diagonal = n_diag


def n_trace(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    return V('num' if x.ndim == 2 else 'top', shape=() if x.ndim == 2 else None, deg=x.deg, dt=x.dt, tw=0 if x.tw == 0 else None,
             row=x.row if x.row in ('I', 'M') else None, deps=deps, sym=sym)


# ---------------------------------------------------------------- elementwise
def n_abs(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    c = cnum(x)
    if c is not None:
        return const(abs(c)).w(deps=deps)
    if x.kind not in ('num', 'top'):
        return top(deps=deps, sym=sym)
    return M.elementwise('abs', [x], dt=x.dt if x.dt != 'c' else 'f', deg=x.deg if x.deg != 'H' else None, tw=nonlin_tw(x))


n_absolute = n_fabs = n_abs


def _pow(e):
    def g(I, st, A, args, kw, n, deps, sym, path, last):
        x = arr(I, st, args[0], n)
        c = cnum(x)
        if c is not None and c >= 0 and (e > 0 or c > 0):
            return const(float(c) ** float(e)).w(deps=deps)
        if x.kind not in ('num', 'top'):
            return top(deps=deps, sym=sym)
        d = x.deg * e if isinstance(x.deg, Fraction) else x.deg if x.deg in ('X', 'Z') and e > 0 else None
        return M.elementwise(last, [x], dt='f' if x.dt in ('b', 'i', 'f') else None if e == Fraction(1, 2) else x.dt, deg=d, tw=nonlin_tw(x))
    return g


n_sqrt, n_cbrt, n_square, n_reciprocal = _pow(Fraction(1, 2)), _pow(Fraction(1, 3)), _pow(Fraction(2)), _pow(Fraction(-1))


def n_negative(I, st, A, args, kw, n, deps, sym, path, last):
    return M.unary(I, st, ast.USub(), arr(I, st, args[0], n), n)


def n_sign(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    return M.elementwise('sign', [x], dt=x.dt, deg='X' if x.deg == 'X' else F0 if x.deg is not None and x.deg != 'H' else None, tw=nonlin_tw(x))


def _pred(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    tw = 0 if x.tw is not None and x.tw != 'T' or x.tw == 0 else None
    return M.elementwise(last, [x], dt='b', deg=F0, tw=tw)


n_isnan = n_isfinite = n_isinf = n_isneginf = n_isposinf = n_isreal = _pred


def n_logical_not(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    t = I.truth(x, st) if is_sc(x) or x.kind not in ('num', 'top') else None
    if t is not None and x.const is not NOC:
        return const(not t).w(deps=deps)
    return M.unary(I, st, ast.Invert(), x, n).w(dt='b')


n_invert = n_bitwise_not = n_logical_not


def _minmax(I, st, A, args, kw, n, deps, sym, path, last):
    from .npbuiltin import minmax_deg
    a, b = arr(I, st, args[0], n), arr(I, st, args[1], n)
    ca, cb = cnum(a), cnum(b)
    if ca is not None and cb is not None:
        return const(max(ca, cb) if last in ('maximum', 'fmax') else min(ca, cb)).w(deps=deps)
    deg = minmax_deg(I, st, a, b, n, last)
    tw = a.tw if a.tw == b.tw else M.same_tw(a.tw, b.tw) if 'N' in (a.tw, b.tw) else ('T' if a.tw is not None and b.tw is not None and 'T' not in (a.tw, b.tw) and (0 in (a.tw, b.tw)) else None)
    r = M.elementwise(last, [a, b], dt=prom(a.dt, b.dt), deg=deg, tw=tw)
    return r.w(sym=T.mk('ew', last, *sorted((a.sym, b.sym))))


n_maximum = n_minimum = n_fmax = n_fmin = _minmax


def n_clip(I, st, A, args, kw, n, deps, sym, path, last):
    from .npbuiltin import minmax_deg
    x = arr(I, st, args[0], n)
    deg, tw, row = x.deg, x.tw, x.row
    dt = x.dt
    for k, (i, nm) in enumerate(((1, 'a_min'), (2, 'a_max'))):
        b = A.get(i, nm, 'min' if k == 0 else 'max')
        if b is None or b.kind == 'none':
            continue
        b = arr(I, st, b, n)
        c = cnum(b)
        if c is not None and abs(c) == float('inf'):
            continue
        deg = minmax_deg(I, st, x.w(deg=deg), b, n, 'clip')
        tw = tw if tw == b.tw else ('T' if tw is not None and b.tw is not None and 'T' not in (tw, b.tw) and 0 in (tw, b.tw) else None)
        row = jrow2(row, b.row) if is_sc(b) else (row if b.row == 'I' else None)
        dt = prom(dt, b.dt)
    return V(x.kind, shape=x.shape, deg=deg, tw=tw, row=row, dt=dt, deps=deps, sym=sym)


def square_solve(I, st, n, x, b):
    if x.kind == b.kind == 'num' and x.shape and b.shape and len(x.shape) == 2 and len(b.shape) <= 2:
        if clash(st, x.shape[0], b.shape[0], False) or clash(st, x.shape[0], x.shape[1], False):
            I.ev('shape_generic', n, st, a=str(x.shape), b=str(b.shape), op='solve')


def n_where(I, st, A, args, kw, n, deps, sym, path, last):
    c = arr(I, st, args[0], n)
    if len(args) == 1:
        return n_nonzero(I, st, A, args, kw, n, deps, sym, path, last)
    a, b = arr(I, st, args[1], n), arr(I, st, args[2], n)
    if a.kind not in ('num', 'top') or b.kind not in ('num', 'top'):
        return top(deps=deps, sym=sym)
    from .interp import jdeg_store
    deg = jdeg_store(a.deg, b.deg)
    if c.deg == 'X' and deg != 'Z':
        deg = None if a.sym != b.sym else deg
    tw = a.tw if a.tw == b.tw and c.tw == 0 else M.same_tw(a.tw, b.tw) if c.tw == 0 and 'N' in (a.tw, b.tw) else (0 if a.tw == b.tw == 0 and c.tw == 0 else None)
    for x, y in ((c, a), (c, b), (a, b)):
        if x.kind == y.kind == 'num':
            generic_clash(I, st, n, x.shape, y.shape, 'where')
    r = M.elementwise('where', [c, a, b], dt=prom(a.dt, b.dt), deg=deg, tw=tw)
    nd = [v.ndim for v in (c, a, b)]
    row = 'I'
    if None not in nd:
        mx = max(nd)
        for v in (c, a, b):
            row = jrow2(row, shift_row(v.row, mx - v.ndim))
    else:
        row = None
    r.row = row
    return r


def n_nan_to_num(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    cp = A.get(1, 'copy')
    r = x.w(roots=E0, base=(), aid=None, sym=T.mk('ew', 'nan_to_num', x.sym, *[v.sym for v in args[1:]], *[kw[k].sym for k in sorted(kw)]),
            extra=None, const=NOC, poly=None)
    nv = kw.get('nan')
    if nv is not None and nv.deg not in ('Z', x.deg):
        r.deg = None
    if cp is not None and cp.const is False:
        I.mutate(st, x, n, 'nan_to_num(copy=False)', [], r.w(roots=x.roots, base=x.base, aid=x.aid))
        return x
    return r


def n_hypot(I, st, A, args, kw, n, deps, sym, path, last):
    a, b = args[0], args[1]
    return M.elementwise('hypot', [a, b], dt='f', deg=add_deg(I, st, a, b, n, 'hypot'), tw=nonlin_tw(a, b))


def n_arctan2(I, st, A, args, kw, n, deps, sym, path, last):
    a, b = arr(I, st, args[0], n), arr(I, st, args[1], n)
    d = None
    if a.deg == b.deg and isinstance(a.deg, Fraction):
        d = F0
    elif isinstance(a.deg, Fraction) and isinstance(b.deg, Fraction):
        I.ev('deg_clash', n, st, what='arctan2', a=str(a.deg), b=str(b.deg))
        d = 'X'
    elif 'X' in (a.deg, b.deg):
        d = 'X'
    return M.elementwise('arctan2', [a, b], dt='f', deg=d, tw=nonlin_tw(a, b))


def n_sinc(I, st, A, args, kw, n, deps, sym, path, last):
    return M.elementwise('sinc', [arr(I, st, args[0], n)], dt='f')


def n_heaviside(I, st, A, args, kw, n, deps, sym, path, last):
    return M.elementwise('heaviside', [args[0]], dt='f')


def n_allclose(I, st, A, args, kw, n, deps, sym, path, last):
    a, b = arr(I, st, args[0], n), arr(I, st, args[1], n)
    atol = A.get(3, 'atol')
    if any(isinstance(x.deg, Fraction) and x.deg != 0 for x in (a, b)) and (atol is None or cnum(atol) not in (None, 0)):
        # the absolute tolerance is a length (or area, ...) threshold
        deps = deps | frozenset(['#scale:%s' % ('isclose' if atol is None else repr(cnum(atol)))])
    if last == 'allclose':
        return V('num', shape=(), dt='b', deps=deps, sym=sym)
    r = M.elementwise('isclose', [a, b], dt='b')
    return r.w(deps=r.deps | deps)


n_isclose = n_allclose


def n_array_equal(I, st, A, args, kw, n, deps, sym, path, last):
    return V('num', shape=(), dt='b', deps=deps, sym=sym)


n_array_equiv = n_shares_memory = n_array_equal


# ---------------------------------------------------------------- products
def n_cross(I, st, A, args, kw, n, deps, sym, path, last):
    a, b = arr(I, st, args[0], n), arr(I, st, args[1], n)
    if a.kind not in ('num', 'top') or b.kind not in ('num', 'top'):
        return top(deps=deps, sym=sym)
    shape = None
    ax = kw.get('axis')
    if a.shape is not None and b.shape is not None and a.shape and b.shape:
        sh, bad = bshape(a.shape, b.shape)
        la, lb = a.shape[-1], b.shape[-1]
        if ax is not None and M.norm_axis(ax, a.ndim) not in (None, a.ndim - 1):
            la = a.shape[M.norm_axis(ax, a.ndim)]
            lb = la
            shape = sh if la is not None and la.as_int() == 3 else None
        elif la is not None and lb is not None and la.as_int() == 2 and lb.as_int() == 2:
            shape = sh[:-1]
        elif la is not None and (la.as_int() == 3) or lb is not None and lb.as_int() == 3:
            shape = sh
    row = rowb(a, b)
    if shape is not None and isinstance(row, tuple) and row[0] in ('A', 'S') and row[1] == max(a.ndim, b.ndim) - 1:
        row = None
    tw = 0 if a.tw == b.tw == 0 else None
    for p, q in ((a, b), (b, a)):
        if isinstance(p.tw, tuple) and p.tw[2] == ('v', -1) and not varying(p.tw) and directional(q) or p.tw == 'T' and directional(q):
            tw = 'T'
    return V('num' if shape is not None and a.kind == b.kind == 'num' else 'top', shape=shape, deg=mul_deg(a.deg, b.deg), dt=prom(a.dt, b.dt),
             row=row, tw=tw, deps=deps, sym=T.mk('cross', a.sym, b.sym, ax.sym if ax is not None else -1))


def n_dot(I, st, A, args, kw, n, deps, sym, path, last):
    return dot(I, st, arr(I, st, args[0], n), arr(I, st, args[1], n), n)


n_inner = n_vdot = n_dot


def n_outer(I, st, A, args, kw, n, deps, sym, path, last):
    a, b = arr(I, st, args[0], n), arr(I, st, args[1], n)
    return V('num', shape=(M.prodshape(a.shape), M.prodshape(b.shape)), deg=mul_deg(a.deg, b.deg), dt=prom(a.dt, b.dt),
             tw=0 if a.tw == b.tw == 0 else None, deps=deps, sym=sym)


def n_kron(I, st, A, args, kw, n, deps, sym, path, last):
    a, b = arr(I, st, args[0], n), arr(I, st, args[1], n)
    sh = None
    if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
        sh = tuple(p * q if p is not None and q is not None else None for p, q in zip(a.shape, b.shape))
    return V('num' if sh is not None and a.kind == b.kind == 'num' else 'top', shape=sh, deg=mul_deg(a.deg, b.deg), dt=prom(a.dt, b.dt),
             tw=0 if a.tw == b.tw == 0 else None, deps=deps, sym=sym, row='I' if a.row == b.row == 'I' else None, sp=a.sp or b.sp)


def n_einsum(I, st, A, args, kw, n, deps, sym, path, last):
    if not args or not isinstance(args[0].const, str):
        return top(deps=deps, sym=sym)
    spec = args[0].const.replace(' ', '')
    ops = [arr(I, st, a, n) for a in args[1:]]
    if '->' not in spec or '.' in spec:
        return top(deps=deps, sym=sym)
    ins, out = spec.split('->')
    ins = ins.split(',')
    deg = ops[0].deg
    for o in ops[1:]:
        deg = mul_deg(deg, o.deg)
    dims, rows = {}, {}
    okrow = True
    kind = 'num'
    for l, o in zip(ins, ops):
        if o.shape is None or len(o.shape) != len(l):
            kind = 'top'
        else:
            for c, p in zip(l, o.shape):
                if dims.get(c) is None or dims[c] == ONE:
                    dims[c] = p
        if o.row == 'I':
            continue
        if isinstance(o.row, tuple) and o.row[0] == 'A' and o.shape is not None and o.row[1] < len(l):
            rows.setdefault(l[o.row[1]], 0)
        else:
            okrow = False
    row = None
    if okrow:
        if not rows:
            row = 'I'
        elif len(rows) == 1:
            c = next(iter(rows))
            row = ('A', out.index(c)) if c in out else 'M'
            for l, o in zip(ins, ops):
                if isinstance(o.row, tuple) and l.count(c) != 1:
                    row = None
    shape = tuple(dims.get(c) for c in out) if kind == 'num' else None
    return V(kind, shape=shape, deg=deg, tw=0 if all(o.tw == 0 for o in ops) else None, row=row,
             dt=ops[0].dt if len({o.dt for o in ops}) == 1 else None, deps=deps, sym=sym)


def n_cumsum(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    ax = A.get(1, 'axis')
    a = M.norm_axis(ax, x.ndim) if ax is not None else None
    row = x.row
    if isinstance(row, tuple) and row[0] == 'A':
        row = 'M' if (a is None and x.ndim == 1) or a == row[1] else (row if a is not None else None)
    sh = x.shape if (ax is not None or x.ndim == 1) else None
    return V('num' if sh is not None and x.kind == 'num' else 'top', shape=sh, deg=x.deg if last == 'cumsum' or x.deg == 0 else None, tw=0 if x.tw == 0 else None,
             dt='i' if x.dt == 'b' else x.dt, row=row, deps=deps, sym=sym)


n_cumprod = n_cumsum


def n_diff(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    ax = A.get(2, 'axis')
    a = M.norm_axis(ax, x.ndim) if ax is not None else (x.ndim - 1 if x.ndim else None)
    sh = None
    if x.shape is not None and a is not None and len(args) == 1:
        sh = tuple(p - ONE if k == a and p is not None else p for k, p in enumerate(x.shape))
    tw = 0 if x.tw == 0 else None
    if isinstance(x.tw, tuple) and x.tw[2][0] == 'v' and x.ndim is not None and a is not None and a != x.ndim + x.tw[2][1]:
        tw = 0
    if isinstance(x.tw, tuple) and x.tw[2][0] == 'c':
        tw = 0
    row = x.row if x.row == 'I' or isinstance(x.row, tuple) and x.row[0] == 'A' and a is not None and a != x.row[1] else None
    return V('num' if sh is not None else 'top', shape=sh, deg=x.deg, dt=x.dt, tw=tw, row=row, deps=deps, sym=sym)


# ---------------------------------------------------------------- sets, sorting, searching
def n_sort(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    ax = A.get(1, 'axis')
    a = M.norm_axis(ax, x.ndim) if ax is not None else (x.ndim - 1 if x.ndim else None)
    row = x.row
    if isinstance(row, tuple) and row[0] == 'A':
        row = 'M' if a == row[1] else (row if a is not None else None)
    tw = x.tw
    if isinstance(tw, tuple):
        tw = tw if tw[2][0] == 'c' or (a is not None and x.ndim is not None and a != x.ndim + tw[2][1]) else None
    return V(x.kind, shape=x.shape, deg=x.deg, dt=x.dt, tw=tw, row=row, deps=deps, sym=sym)


def n_argsort(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    ax = A.get(1, 'axis')
    a = M.norm_axis(ax, x.ndim) if ax is not None else (x.ndim - 1 if x.ndim else None)
    row = x.row
    if isinstance(row, tuple) and row[0] == 'A':
        row = 'M' if a == row[1] else (row if a is not None else None)
    tw = 0 if x.tw == 0 or isinstance(x.tw, tuple) and x.tw[2][0] == 'c' else None
    return V(x.kind, shape=x.shape, deg=F0 if x.deg not in ('X', None, 'H') else None, dt='i', tw=tw, row=row, deps=deps, sym=sym)


def n_lexsort(I, st, A, args, kw, n, deps, sym, path, last):
    return V('top', dt='i', deg=F0, deps=deps, sym=sym)


def n_searchsorted(I, st, A, args, kw, n, deps, sym, path, last):
    return V('top', dt='i', deg=F0, deps=deps, sym=sym)


n_digitize = n_searchsorted


def n_unique(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    axv = A.get(4, 'axis')
    flags = [A.get(1, 'return_index'), A.get(2, 'return_inverse'), A.get(3, 'return_counts')]
    known = all(f is None or f.const in (True, False) for f in flags)
    base = T.mk('unique', x.sym, axv.sym if axv is not None and axv.kind != 'none' else -1)
    a = M.norm_axis(axv, x.ndim) if axv is not None and axv.kind != 'none' else None
    cnt = Poly.atom(f'uniq{base}')
    sh = None
    if axv is None or axv.kind == 'none':
        sh = (cnt,)
        L = M.prodshape(x.shape)
    else:
        L = x.shape[a] if x.shape is not None and a is not None and a < len(x.shape) else None
        if x.shape is not None and a is not None:
            sh = tuple(cnt if k == a else p for k, p in enumerate(x.shape))
    row = 'M' if isinstance(x.row, tuple) and x.row[0] == 'A' and (a == x.row[1] or a is None and x.ndim == 1) else (x.row if x.row in ('I', 'M') else None)
    tw = x.tw if x.tw in (0, 'T') or isinstance(x.tw, tuple) and a is not None else None
    u = V('num' if sh is not None else 'top', shape=sh, deg=x.deg, dt=x.dt, tw=tw, row=row, deps=deps, sym=base)
    if not known:
        return top(deps=deps, sym=sym)
    out = [u]
    ideg = F0 if x.deg not in ('X', None, 'H') else None
    for f, nm, ln in zip(flags, ('index', 'inverse', 'counts'), (cnt, L, cnt)):
        if f is not None and f.const is True:
            s2 = (ln,)
            if nm == 'inverse' and (axv is None or axv.kind == 'none') and x.ndim != 1:
                s2 = None      # shape of the inverse differs between numpy versions
            out.append(V('num' if s2 is not None else 'top', shape=s2, dt='i', deg=ideg, row=row, tw=0 if x.tw is not None and x.tw != 'T' else None,
                         deps=deps, sym=T.mk('uniq_' + nm, base)))
    return out[0] if len(out) == 1 else tup(out)


def _setop(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    y = arr(I, st, args[1], n)
    ri = kw.get('return_indices')
    v = V('num', shape=(Poly.atom(f'set{sym}'),), dt=x.dt if last == 'setdiff1d' else (x.dt if x.dt == y.dt else None),
          deg=x.deg, tw=0 if x.tw == y.tw == 0 else None, deps=deps, sym=sym, row='I' if x.row == y.row == 'I' else None)
    if ri is not None and ri.const is True:
        ii = V('num', shape=(Poly.atom(f'set{sym}'),), dt='i', deg=F0, deps=deps)
        return tup([v, ii.w(sym=T.mk('item', sym, 1)), ii.w(sym=T.mk('item', sym, 2))])
    return v


n_setdiff1d = n_intersect1d = n_union1d = n_setxor1d = _setop


def n_isin(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    y = arr(I, st, args[1], n)
    return V(x.kind, shape=x.shape, dt='b', deg=F0, tw=0 if x.tw == y.tw == 0 else None, row=x.row if y.row == 'I' else None, deps=deps, sym=sym)


n_in1d = n_isin


def n_nonzero(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    base = T.mk('nonzero', x.sym)
    cnt = Poly.atom(f'cnt{x.sym}')
    ideg = 'X' if x.deg == 'X' else F0 if x.deg is not None else None
    tw = 0 if x.tw == 0 else None
    mkv = lambda k: V('num', shape=(cnt,), dt='i', deg=ideg if ideg != 'X' else None, tw=tw, row='I' if x.row == 'I' else None, deps=deps, sym=T.mk('item', base, k))
    if last in ('flatnonzero',):
        return mkv(0)
    if last == 'argwhere':
        nd = x.ndim
        return V('num' if nd is not None else 'top', shape=(cnt, Poly.c(nd)) if nd is not None else None, dt='i', deg=F0 if ideg != 'X' else None, tw=tw, deps=deps,
                 row='I' if x.row == 'I' else None, sym=T.mk('argwhere', x.sym))
    nd = x.ndim
    if nd is None:
        return V('tuple', elem=mkv(-1), deps=deps, sym=base)
    return tup([mkv(k) for k in range(nd)]).w(deps=deps)


n_flatnonzero = n_argwhere = n_nonzero


def n_bincount(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    w = A.get(1, 'weights')
    ml = A.get(2, 'minlength')
    # result has max(minlength, max(x)+1) entries
    return V('num', shape=(M.dimpoly(ml) if ml is not None else Poly.atom(f'binc{sym}'),) if ml is not None else (Poly.atom(f'binc{sym}'),),
             dt='f' if w is not None and w.kind != 'none' else 'i', deg=w.deg if w is not None else F0, tw=(w.tw if w.tw == 0 else None) if w is not None else 0,
             row='I' if x.row == 'I' and (w is None or w.row == 'I') else None, deps=deps, sym=sym)


def n_ravel_multi_index(I, st, A, args, kw, n, deps, sym, path, last):
    x = args[0]
    sh = None
    if x.kind in ('tuple', 'list') and x.items:
        sh = x.items[0].shape
    return V('num' if sh is not None else 'top', shape=sh, dt='i', deg=F0, tw=0 if x.items and all(i.tw == 0 for i in x.items) else None, deps=deps, sym=sym,
             row=rows_of(x.items) if x.items else None)


def n_unravel_index(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    s = args[1] if len(args) > 1 else kw.get('shape')
    k = len(s.items) if s is not None and s.items is not None else None
    mkv = lambda i: V(x.kind, shape=x.shape, dt='i', deg=F0, tw=0 if x.tw == 0 else None, row=x.row, deps=deps, sym=T.mk('item', sym, i))
    if k is None:
        return V('tuple', elem=mkv(-1), deps=deps, sym=sym)
    return tup([mkv(i) for i in range(k)])


def n_interp(I, st, A, args, kw, n, deps, sym, path, last):
    return V('top', deps=deps, sym=sym, dt='f')


def n_isscalar(I, st, A, args, kw, n, deps, sym, path, last):
    x = args[0]
    if x.kind in ('num',) and x.shape is not None:
        return const(x.shape == ()).w(deps=x.deps)
    if x.kind in ('tuple', 'list', 'none', 'dict', 'func', 'inst'):
        return const(False).w(deps=x.deps)
    if x.kind == 'str':
        return const(True).w(deps=x.deps)
    if x.ex('scalar'):
        return const(True).w(deps=x.deps)
    return V('num', shape=(), dt='b', deg=F0, tw=0, row='I', deps=deps, sym=T.mk('isscalar', x.sym))


def n_ndim(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    if x.shape is not None:
        return const(len(x.shape))
    return V('num', shape=(), dt='i', deg=F0, tw=0, row='I', deps=deps, sym=T.mk('ndim', x.sym))


def n_shape(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    return M._attribute(I, st, x, 'shape', n)


def n_size(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    if len(args) == 1 and not kw:
        return M._attribute(I, st, x, 'size', n)
    return V('num', shape=(), dt='i', deg=F0, deps=deps, sym=sym)


def n_finfo(I, st, A, args, kw, n, deps, sym, path, last):
    return V('top', deps=E0, sym=sym, extra={'finfo': 'f' if last == 'finfo' else 'i', 'notnone': True})


n_iinfo = n_finfo


def n_dtype(I, st, A, args, kw, n, deps, sym, path, last):
    d = M.dtype_of(args[0]) if args else None
    return V('ext', path='dtype', sym=sym, extra={'dt': d})


def n_result_type(I, st, A, args, kw, n, deps, sym, path, last):
    ds = [a.ex('dt') if a.kind == 'ext' else a.dt for a in args]
    d = 'f' if 'f' in ds else ds[0] if ds and len(set(ds)) == 1 else None
    return V('ext', path='dtype', sym=sym, extra={'dt': d} if d else None)


def n_errstate(I, st, A, args, kw, n, deps, sym, path, last):
    return top(sym=sym)


def n_seterr(I, st, A, args, kw, n, deps, sym, path, last):
    I.ev('global_write', n, st, name='numpy.seterr')
    return top(sym=sym)


n_set_printoptions = n_seterrcall = n_seterr


def n_take(I, st, A, args, kw, n, deps, sym, path, last):
    x, i = arr(I, st, args[0], n), arr(I, st, args[1], n)
    ax = A.get(2, 'axis')
    if ax is not None and cnum(ax) == 0:
        return M.getitem(I, st, x, i, n)
    return V('top', deg=x.deg, dt=x.dt, deps=deps, sym=sym)


def n_take_along_axis(I, st, A, args, kw, n, deps, sym, path, last):
    x = arr(I, st, args[0], n)
    return V('top', deg=x.deg, dt=x.dt, deps=deps, sym=sym)


def n_choose(I, st, A, args, kw, n, deps, sym, path, last):
    return top(deps=deps, sym=sym)


n_select = n_piecewise = n_apply_along_axis = n_vectorize = n_fromfunction = n_frompyfunc = n_choose


def n_savetxt(I, st, A, args, kw, n, deps, sym, path, last):
    I.ev('fs', n, st, name=path, file=args[0] if args else None)
    return const(None)


def n_loadtxt(I, st, A, args, kw, n, deps, sym, path, last):
    I.ev('fs', n, st, name=path, file=args[0] if args else None)
    return top(deps=deps, sym=sym, extra={'notnone': True})


n_save = n_savez = n_savez_compressed = n_savetxt
n_load = n_genfromtxt = n_fromfile = n_memmap = n_loadtxt


def n_gradient(I, st, A, args, kw, n, deps, sym, path, last):
    return top(deps=deps, sym=sym)


# ---------------------------------------------------------------- linalg
def linalg(I, st, last, A, args, kw, n, deps, sym):
    x = arr(I, st, args[0], n) if args else None
    if last == 'norm' and x is not None:
        ax = A.get(2, 'axis')
        o = A.get(1, 'ord')
        keep = kw.get('keepdims')
        if o is not None and cnum(o) == 2 and ax is not None:
            o = None
        r = M.reduce_(I, st, 'norm', x, ax, n, keep is not None and keep.const is True, [o.sym] if o is not None and o.kind != 'none' else [])
        return r.w(deps=deps)
    if last == 'solve' and len(args) > 1:
        b = arr(I, st, args[1], n)
        square_solve(I, st, n, x, b)
        d = b.deg - x.deg if isinstance(b.deg, Fraction) and isinstance(x.deg, Fraction) else None
        return V(b.kind, shape=b.shape if x.ndim == 2 else None, deg=d, dt='f', tw=0 if x.tw == b.tw == 0 else None,
                 row='I' if x.row == b.row == 'I' else None, deps=deps, sym=sym).w(kind=b.kind if x.ndim == 2 else 'top')
    if last == 'inv' and x is not None:
        return V(x.kind, shape=x.shape, deg=-x.deg if isinstance(x.deg, Fraction) else None, dt='f', tw=0 if x.tw == 0 else None,
                 row=x.row if x.ndim == 3 and x.row == ('A', 0) or x.row == 'I' else None, deps=deps, sym=sym)
    if last == 'det' and x is not None:
        k = x.shape[-1].as_int() if x.shape is not None and x.shape and x.shape[-1] is not None else None
        return V('num' if x.shape is not None else 'top', shape=x.shape[:-2] if x.shape is not None else None,
                 deg=x.deg * k if isinstance(x.deg, Fraction) and k else (x.deg if x.deg == 0 else None), dt='f', tw=0 if x.tw == 0 else None,
                 row=x.row if x.ndim == 3 and x.row == ('A', 0) or x.row == 'I' else None, deps=deps, sym=sym)
    if last in ('svd', 'eigh', 'eig', 'qr', 'lstsq', 'eigvals', 'eigvalsh', 'cholesky', 'pinv', 'slogdet', 'matrix_rank'):
        return top(deps=deps, sym=sym)
    if last == 'cross':
        return n_cross(I, st, A, args, kw, n, deps, sym, 'numpy.cross', 'cross')
    if last == 'multi_dot':
        return top(deps=deps, sym=sym)
    return None


# ---------------------------------------------------------------- scipy
def stk(its):
    """Joining sparse pieces gives a matrix unless one of them may be a sparse array."""
    return True if any(i.sp is True or i.kind == 'top' for i in its) else 'm'


def scipy_call(I, st, path, last, sub, A, args, kw, n, deps, sym):
    x = args[0] if args else None
    if 'sparse' in sub:
        if last in M.SPM:
            return sparse_ctor(I, st, path, last, A, args, kw, n, deps, sym)
        if last in ('diags', 'spdiags', 'diags_array'):
            return sp_diags(I, st, path, last, A, args, kw, n, deps, sym)
        if last in ('eye', 'identity', 'eye_array'):
            a = M.dimpoly(x)
            b = A.get(1, 'n', 'm')
            b = M.dimpoly(b) if b is not None and b.kind not in ('none', 'str') and last != 'identity' else a
            return V('num', shape=(a, b), dt='f', deg=F0, tw=0, row='I', deps=deps, sym=T.mk('speye', *[v.sym for v in args[:1]], repr(b)), sp=True if 'array' in last else 'm')
        if last in ('bmat', 'block_array'):
            return sp_bmat(I, st, x, n, deps, sym)
        if last in ('vstack', 'hstack'):
            its = I.iter_items(x) if x.kind in ('tuple', 'list') else None
            if its is None:
                return top(deps=deps, sym=sym, sp=True)
            its = [i.w(kind='num') if i.kind == 'top' and i.shape is not None else i for i in its]
            r = M.concat(I, st, its, 0 if last == 'vstack' else 1, n, path)
            return r.w(sp=stk(its), deps=deps)
        if last == 'block_diag':
            its = I.iter_items(x) if x.kind in ('tuple', 'list') else None
            if its is None:
                return top(deps=deps, sym=sym, sp=True)
            deg = its[0].deg
            from .interp import jdeg_store
            for i in its[1:]:
                deg = jdeg_store(deg, i.deg)
            sh = None
            if all(i.shape is not None and len(i.shape) == 2 and None not in i.shape for i in its):
                a = b = Poly.c(0)
                for i in its:
                    a, b = a + i.shape[0], b + i.shape[1]
                sh = (a, b)
            return V('num' if sh is not None else 'top', shape=sh, deg=deg, tw=0 if all(i.tw == 0 for i in its) else None, dt='f',
                     row='I' if all(i.row == 'I' for i in its) else None, deps=deps, sym=T.mk('blockdiag', *[i.sym for i in its]), sp=stk(its))
        if last == 'kron':
            r = n_kron(I, st, A, list(args[:2]), kw, n, deps, sym, path, last)
            return r.w(sp=stk(args[:2]))
        if last == 'find':
            cnt = Poly.atom(f'nnz{x.sym}')
            mk = lambda k, d, g: V('num', shape=(cnt,), dt=d, deg=g, deps=deps, sym=T.mk('item', sym, k), tw=0 if x.tw == 0 else None)
            return tup([mk(0, 'i', F0), mk(1, 'i', F0), mk(2, x.dt, x.deg)])
        if last in ('issparse', 'isspmatrix'):
            if x.sp:
                return const(True).w(deps=deps)
            if x.kind in ('none', 'tuple', 'list', 'str') or x.kind == 'num' and not x.sp and not deps:
                return const(False).w(deps=deps)
            return V('num', shape=(), dt='b', deg=F0, tw=0, deps=deps, sym=sym)
        if last == 'spsolve':
            b = args[1]
            square_solve(I, st, n, x, b)
            d = b.deg - x.deg if isinstance(b.deg, Fraction) and isinstance(x.deg, Fraction) else None
            if b.kind == 'num' and b.ndim == 1 and not b.sp and x.ndim == 2:
                return V('num', deg=d, deps=deps, sym=sym, shape=b.shape, dt='f')
            return V('top', deg=d, deps=deps, sym=sym, shape=None, dt='f')
        if last in ('splu', 'factorized', 'spilu'):
            return V('top', deg=x.deg, deps=deps, sym=sym, extra={'lu': True, 'notnone': True}, shape=None)
        if last == 'connected_components':
            lab = V('num', shape=(x.shape[0] if x.shape is not None and x.ndim == 2 else None,), dt='i', deg=F0, tw=0 if x.tw == 0 else None, deps=deps, sym=T.mk('item', sym, 1))
            k = V('num', shape=(), dt='i', deg=F0, tw=0 if x.tw == 0 else None, deps=deps, sym=T.mk('item', sym, 0), poly=Poly.atom(f'cc{x.sym}'))
            rl = kw.get('return_labels')
            return tup([k, lab]) if rl is None or rl.const is True else (k if rl.const is False else top(deps=deps, sym=sym))
        if last in ('cg', 'bicg', 'gmres', 'bicgstab', 'minres'):
            return tup([top(deps=deps, sym=T.mk('item', sym, 0)), top(deps=deps, sym=T.mk('item', sym, 1))])
        if last in ('eigs', 'eigsh', 'svds'):
            return top(deps=deps, sym=sym)
        if last in ('triu', 'tril'):
            return x.w(sym=sym, deps=deps, roots=E0, base=(), aid=None)
        return top(deps=deps, sym=sym)
    if last in ('cKDTree', 'KDTree', 'interp1d', 'gaussian_filter', 'RegularGridInterpolator', 'linear_sum_assignment'):
        return top(deps=deps, sym=sym, extra={'notnone': True})
    if 'special' in sub and last in M.DEG0:
        return M.elementwise(last, [arr(I, st, x, n)], dt='f', deg=None)
    if 'linalg' in sub and last in ('norm', 'solve', 'inv', 'det'):
        return linalg(I, st, last, A, args, kw, n, deps, sym)
    return None


def sparse_ctor(I, st, path, last, A, args, kw, n, deps, sym):
    cls = 'm' if last.endswith('_matrix') else True
    x = A.get(0, 'arg1')
    shp = A.get(1, 'shape')
    sh = M.shape_arg(shp) if shp is not None and shp.kind != 'none' else None
    if x is None:
        return None
    fmt = 'sp'
    if x.kind == 'tuple' and x.items is not None and len(x.items) == 2 and x.items[1].kind in ('tuple', 'list') and x.items[1].items is not None \
            and len(x.items[1].items) == 2:
        d = arr(I, st, x.items[0], n)
        i, j = [arr(I, st, v, n) for v in x.items[1].items]
        if d.kind not in ('num', 'top'):
            return top(deps=deps, sym=sym, sp=cls)
        if sh is None:
            sh = (Poly.atom(f'mx{i.sym}'), Poly.atom(f'mx{j.sym}'))
        I.ev('coo', n, st, data=d.sym, i=i.sym, j=j.sym, dt_i=i.dt, dt_j=j.dt)
        ld, li = (d.shape[0] if d.shape else None), (i.shape[0] if i.shape else None)
        if d.shape is not None and i.shape is not None and len(d.shape) == 1 and len(i.shape) == 1 and ld is not None and li is not None \
                and ld != li and ld.as_int() is not None and li.as_int() is not None:
            I.ev('shape_mismatch', n, st, a=str(d.shape), b=str(i.shape), op='coo')
        elif d.kind == i.kind == j.kind == 'num' and d.ndim == i.ndim == j.ndim == 1 \
                and (clash(st, ld, li, False) or clash(st, li, j.shape[0], False)):
            I.ev('shape_generic', n, st, a=str(d.shape), b=f'{i.shape} {j.shape}', op='coo')
        return V('num', shape=sh, deg=d.deg if d.deg != 'H' else None, tw=0 if d.tw == i.tw == j.tw == 0 else None,
                 dt=d.dt, row='I' if d.row == i.row == j.row == 'I' else None, deps=deps,
                 sym=T.mk('coo', fmt, d.sym, i.sym, j.sym, repr(sh)), sp=cls)
    if x.kind == 'tuple' and x.items is not None and len(x.items) == 3:
        return V('num' if sh is not None else 'top', shape=sh, deg=x.items[0].deg, dt=x.items[0].dt, deps=deps, roots=x.roots, sym=sym, sp=cls)
    if x.kind == 'tuple' and x.items is not None and len(x.items) == 2:
        s = M.shape_arg(x)
        return V('num' if s is not None else 'top', shape=s, deg='Z', tw=0, dt='f', row='I', deps=deps, sym=sym, sp=cls)
    if x.kind in ('num', 'top'):
        cp = kw.get('copy')
        r = x.w(sp=cls, deps=deps, base=x.base + ((x.aid,) if x.aid else ()), aid=None, const=NOC, extra=None)
        if sh is not None:
            r = r.w(shape=sh, kind='num')
        if r.shape is not None and len(r.shape) == 1:
            r = r.w(shape=(ONE,) + r.shape, row=shift_row(r.row, 1))
        if cp is not None and cp.const is True or (x.kind == 'num' and not x.sp and not x.deps):
            r = r.w(roots=E0, base=())
        elif x.sp or x.kind == 'top':
            r = r.w(sym=x.sym)
        return r
    return top(deps=deps, sym=sym, sp=cls)


def sp_diags(I, st, path, last, A, args, kw, n, deps, sym):
    d = arr(I, st, A.get(0, 'diagonals', 'data'), n)
    if d.ex('squeezed'):
        from .npcore import collapses
        collapses(I, st, d, n, 'the diagonal given by a squeezed array')
    off = A.get(1, 'offsets', 'diags')
    sh = None
    if last == 'spdiags':
        m, k = M.dimpoly(A.get(2, 'm')), M.dimpoly(A.get(3, 'n'))
        if m is not None and k is not None:
            sh = (m, k)
    else:
        s = A.get(2, 'shape')
        if s is not None and s.kind != 'none':
            sh = M.shape_arg(s)
        elif d.kind == 'num' and d.ndim == 1 and (off is None or cnum(off) == 0):
            sh = (d.shape[0], d.shape[0])
        elif d.ndim == 2 and d.shape[0] is not None and d.shape[0] == ONE and (off is None or cnum(off) == 0):
            sh = (d.shape[1], d.shape[1])
    zero = off is None or cnum(off) == 0
    s2 = T.mk('diag', d.sym, repr(sh)) if zero else sym
    return V('num' if sh is not None else 'top', shape=sh, deg=d.deg if d.deg != 'H' else None, tw=0 if d.tw == 0 else None, dt='f', row='I' if d.row == 'I' else None,
             deps=deps, sym=s2, sp=True if last == 'diags_array' else 'm')


def sp_bmat(I, st, x, n, deps, sym):
    if x.items is None or any(r.kind not in ('list', 'tuple') or r.items is None for r in x.items):
        return top(deps=deps, sym=sym, sp=True)
    from .interp import jdeg_store
    deg, blocks = 'Z', []
    rows = [list(r.items) for r in x.items]
    cells = [c for r in rows for c in r if c.kind != 'none']
    for c in cells:
        deg = jdeg_store(deg, c.deg)
    H = Poly.c(0)
    for r in rows:
        hs = [c.shape[0] for c in r if c.kind != 'none' and c.shape is not None and c.ndim == 2 and c.shape[0] is not None]
        H = H + hs[0] if H is not None and hs else None
    W = Poly.c(0)
    for k in range(max(len(r) for r in rows)):
        ws = [r[k].shape[1] for r in rows if k < len(r) and r[k].kind != 'none' and r[k].shape is not None and r[k].ndim == 2 and r[k].shape[1] is not None]
        W = W + ws[0] if W is not None and ws else None
    sh = (H, W) if H is not None and W is not None else None
    return V('num' if sh is not None else 'top', shape=sh, deg=deg, tw=0 if all(c.tw == 0 for c in cells) else None, dt='f',
             row='I' if all(c.row == 'I' for c in cells) else None, deps=deps,
             sym=T.mk('bmat', *[T.mk('row', *[c.sym for c in r]) for r in rows]), sp=stk(cells))
