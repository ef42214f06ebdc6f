"""Transfer functions for methods of arrays, sparse matrices, containers, strings, generators."""
import ast
from fractions import Fraction
from .terms import T, Poly
from .values import V, NOC, Other, E0, const, tup, top, intv, udeps, uroots, joinv, new_aid
from .npcore import omitted, cnum, is_sc, F0, ONE, transpose, jrow2
from . import npmodel as M

VIEW = {'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'view', 'diagonal', 'getH'}


METHOUT = {'clip': 2, 'round': 1, 'sum': 2, 'prod': 2, 'cumsum': 2, 'cumprod': 2, 'mean': 2, 'max': 1, 'min': 1, 'take': 2, 'any': 1, 'all': 1,
           'argmax': 1, 'argmin': 1, 'dot': 1, 'std': 2, 'var': 2, 'choose': 1, 'compress': 2, 'random': 2, 'standard_normal': 2}


def call(I, st, o, name, args, kw, n, star):
    if o.kind in ('num', 'top') and not star:
        out, k = kw.get('out'), METHOUT.get(name)
        if out is None and o.kind == 'num' and k is not None and len(args) > k:
            out, args = args[k], args[:k] + args[k + 1:]
        if out is not None and out.kind != 'none':
            r = call(I, st, o, name, args, {a: b for a, b in kw.items() if a != 'out'}, n, star)
            I.mutate(st, out, n, f'out= of .{name}()', [r], r.w(roots=out.roots, base=out.base, aid=out.aid))
            return r.w(roots=out.roots, base=out.base, aid=out.aid)
    vs = [o] + list(args) + list(kw.values())
    deps = udeps(vs)
    sym = T.mk('meth', name, o.sym, *[a.sym for a in args], *[x for k in sorted(kw) for x in (k, kw[k].sym)])
    A = M.Args(args, kw)
    x = args[0] if args else None
    if o.kind == 'str':
        return strmeth(I, st, o, name, args, kw, n, deps, sym)
    if o.kind == 'list':
        return listmeth(I, st, o, name, args, kw, n, deps, sym)
    if o.kind == 'dict':
        return dictmeth(I, st, o, name, args, kw, n, deps, sym)
    if o.kind == 'set':
        if name in ('add', 'discard', 'remove', 'update', 'pop', 'clear'):
            new = V('set', items=None, elem=I.list_elem(o if o.items is None else tup(o.items), tup(args)), deps=deps, sym=sym,
                    aid=o.aid, roots=o.roots)
            I.mutate(st, o, n, name, args, new)
            return top(deps=deps, sym=sym) if name == 'pop' else const(None)
        return V('set', elem=o.elem, deps=deps, sym=sym, aid=new_aid()) if name in ('union', 'intersection', 'difference', 'copy') \
            else top(deps=deps, sym=sym)
    if o.ex('rng') or (o.kind == 'top' and name in ('integers', 'standard_normal') and not o.ex('file')):
        I.ev('rng_draw', n, st, rng=o.ex('rng'), deps=tuple(sorted(o.deps)), roots=tuple(sorted(o.roots)), sym=o.sym)
        if name in ('shuffle', 'permuted') and x is not None and name == 'shuffle':
            I.mutate(st, x, n, 'rng.shuffle', [])
        r = top(deps=deps, sym=T.mk('draw', st.rng, sym), deg=F0, tw=0)
        if name == 'uniform':
            ds = [a.deg for a in args[:2]]
            r.deg = None
            if len(ds) == 2 and (ds[0] == ds[1] or ds[0] == 'Z'):
                r.deg = ds[1]
            elif not ds:
                r.deg = F0
            r.tw = None if args else 0
            r.dt = 'f'
        if name == 'random' or name == 'normal':
            r.dt = 'f'
            r.deg = F0 if name == 'random' else None
        if name in ('integers',):
            r.dt = 'i'
            r.deg = F0
        if name == 'choice' and x is not None:
            r.deg, r.dt, r.tw = x.deg, x.dt, x.tw if x.tw in (0, 'T') else None
        sz = A.get(2, 'size') if name in ('uniform', 'normal', 'integers') else A.get(0, 'size') if name == 'random' else A.get(1, 'size')
        sh = M.shape_arg(sz) if sz is not None and sz.kind != 'none' else None
        if sh is not None and name in ('uniform', 'normal', 'integers', 'random'):
            r.kind, r.shape = 'num', sh
        elif name == 'choice' and sh is not None and x is not None and (is_sc(x) or x.ndim == 1):
            r.kind, r.shape = 'num', sh
            if is_sc(x):
                r.dt, r.deg, r.tw = 'i', F0, 0
        st.rng = T.mk('rngnext', st.rng, sym)
        return r
    if o.ex('file'):
        if name in ('close', '__exit__'):
            I.ev('close', n, st)
        if name in ('write', 'writelines'):
            return top(deps=deps, sym=sym)
        return V('str', deps=deps, sym=T.mk('meth', name, o.sym, T.fresh('read'))) if name in ('read', 'readline') else top(deps=deps)
    if o.ex('native'):
        nm = o.ex('native')
        I.ev('native_method', n, st, name=nm, method=name, nargs=len(args), kw=tuple(sorted(kw)),
             syms=tuple(a.sym for a in args), vals=(list(args), dict(kw), o))
        return top(deps=deps, sym=sym, extra={'native': f'{nm}.{name}', 'natsym': sym, 'notnone': True})
    if omitted(st, o):
        I.ev('none_attr', n, st, name=name, open=True)
    if o.kind in ('num', 'top'):
        r = arrmeth(I, st, o, name, A, args, kw, n, deps, sym)
        if r is not None:
            return r
    if o.kind == 'top':
        I.ev('callback', n, st, name=name)
    if o.kind == 'none':
        from .interp import PathDead
        I.ev('none_attr', n, st, name=name)
        raise PathDead('None.' + name)
    return top(deps=deps, sym=sym)


def arrmeth(I, st, o, name, A, args, kw, n, deps, sym):
    x = args[0] if args else None
    ar = o.kind == 'num' or o.sp
    if name == 'astype':
        d = M.dtype_of(A.get(0, 'dtype'))
        t = A.get(0, 'dtype')
        if t is not None and t.ex('dt') == 'i' and o.dt == 'f':
            I.ev('int_store_float', n, st, why='conversion to the type of an argument')
        r = M.cast(I, st, o, d, n, A.get(0, 'dtype').sym if A.get(0, 'dtype') is not None else None)
        cp = A.get(4, 'copy')
        r = r.w(deps=deps)
        nm = M.dtype_name(A.get(0, 'dtype'))
        if nm:
            r = r.wex(dtn=(nm, r.sym))
        if cp is not None and cp.const is False:
            return r
        return r.w(roots=E0, base=(), aid=None)
    if name in ('copy', '__copy__', '__deepcopy__'):
        return M.copyv(o).w(deps=deps)
    if name == 'flatten':
        return M.flat(o).w(roots=E0, base=()) if (o.kind == 'num' and not args and not kw) else \
            V(o.kind if o.kind == 'num' else 'top', shape=(M.prodshape(o.shape),), deg=o.deg, dt=o.dt,
              tw=o.tw if o.tw in (0, 'T') else None, row=o.row if o.row in ('I', 'M') else None, deps=deps, sym=sym)
    if name == 'ravel':
        if args or kw:
            order = A.get(0, 'order')
            if isinstance(order.const, str) and order.const in ('C', 'A', 'K'):
                return M.flat(o)
            r = M.flat(o)
            return r.w(row=r.row if r.row in ('I', 'M') or o.ndim == 1 else None, sym=T.mk('reshape', o.sym, 'flat', order.sym))
        return M.flat(o)
    if name == 'reshape':
        if x is not None and x.kind in ('tuple', 'list'):
            shp = M.shape_arg(x)
        else:
            shp = tuple(M.dimpoly(a) for a in args)
        return M.reshape(I, st, o, shp, n, kw.get('order')).w(deps=deps)
    if name == 'transpose' or name == 'conj' or name == 'conjugate' or name == 'getH':
        if name in ('conj', 'conjugate'):
            return o.w(deps=deps)
        if args and x.kind != 'none':
            axes = M.shape_arg(x) if x.kind in ('tuple', 'list') else tuple(M.dimpoly(a) for a in args)
            return M.permute(o, axes, sym).w(deps=deps)
        return transpose(o).w(deps=deps)
    if name == 'squeeze':
        return M.squeeze(o)
    if name in ('swapaxes', 'view', 'diagonal'):
        r = o.w(shape=None, kind='top', sym=sym, row=None, tw=o.tw if o.tw in (0, 'T') else None,
                base=o.base + ((o.aid,) if o.aid else ()), aid=None)
        if name == 'diagonal' and o.sp:
            r = r.w(sp=False, roots=E0, base=(), shape=(o.shape[0],) if o.shape is not None and o.ndim == 2 else None)
            if r.shape is not None:
                r.kind = 'num'
        return r
    if name in ('tocsr', 'tocsc', 'tocoo', 'tolil', 'todok', 'tobsr', 'todia', 'asformat'):
        return o.w(sp=o.sp or True, deps=deps, sym=o.sym)
    if name in ('toarray', 'todense'):
        return o.w(sp=False, roots=E0, base=(), aid=None, sym=T.mk('dense', o.sym))
    if name in M.RED:
        axis = A.get(0, 'axis')
        keep = A.get(None, 'keepdims')
        r = M.reduce_(I, st, M.RED[name], o, axis, n, keep is not None and keep.const is True)
        return r.w(deps=deps)
    if name in ('dot', 'multiply') and x is not None:
        if name == 'dot':
            from . import npfuncs
            return npfuncs.dot(I, st, o, x, n)
        r = M.binop(I, st, ast.Mult(), o.w(sp=False), x.w(sp=False) if x.kind in ('num', 'top') else x, n)
        return r.w(sp=o.sp or True)
    if name in ('item', 'tolist'):
        if name == 'item':
            c = M.cnum(args[0]) if len(args) == 1 else None
            size = None
            if o.kind == 'num' and o.shape is not None and not o.sp and all(p is not None and p.as_int() is not None for p in o.shape):
                size = 1
                for p in o.shape:
                    size *= p.as_int()
            if size is not None and (isinstance(c, int) and not -size <= c < size or not args and not kw and size != 1):
                I.ev('index_error', n, st, why='no such item')
            return o.w(kind='num', shape=(), roots=E0, base=(), aid=None, const=NOC,
                       sym=T.mk('itemscalar', o.sym, *[a.sym for a in args]), extra=None,
                       row=o.row if o.row in ('I', 'M') or isinstance(o.row, tuple) and o.row[0] == 'R' else None,
                       tw=o.tw if o.tw in (0, 'T') else None)
        return V('list', elem=top(deps=deps, deg=o.deg, dt=o.dt), deps=deps, sym=sym, aid=new_aid())
    if name in ('round', 'clip', 'cumsum', 'cumprod', 'argsort', 'nonzero', 'repeat', 'trace', 'take'):
        from . import npfuncs
        r = npfuncs.call(I, st, 'numpy.' + name, name, M.Args([o] + args, kw), [o] + args, kw, n, False)
        if r is not None:
            if name == 'nonzero' and o.sp:
                return tup([i.w() for i in r.items]) if r.items else r
            return r
    if name in ('sort', 'fill', 'resize', 'partition', 'put', 'itemset', 'setfield', 'setflags', 'setdiag',
                'eliminate_zeros', 'sum_duplicates', 'sort_indices', 'prune', 'byteswap') and not (name == 'byteswap'):
        new = o.w(sym=T.mk('mut', name, o.sym, *[a.sym for a in args]), deps=deps, const=NOC, poly=None, extra=None)
        if name == 'fill':
            if o.dt == 'i' and x.dt == 'f' and o.kind == 'num':
                I.ev('int_store_float', n, st, why='fill')
            new = new.w(deg=x.deg, tw=x.tw, row=x.row)
        elif name == 'setdiag' and x is not None:
            from .interp import jdeg_store
            new = new.w(deg=jdeg_store(o.deg, x.deg), row=None)
        elif name == 'resize':
            shp = M.shape_arg(x) if len(args) == 1 and x.kind in ('tuple', 'list') else tuple(M.dimpoly(a) for a in args)
            new = new.w(shape=shp, row=None)
        elif name in ('sort', 'partition'):
            new = new.w(row='M' if o.row == ('A', 0) and o.ndim == 1 else o.row if o.row in ('I', 'M') else None,
                        tw=o.tw if o.tw in (0,) else None)
        I.mutate(st, o, n, '.' + name + '()', args, new)
        return const(None)
    if name == 'tofile':
        I.ev('fs', n, st, name='tofile')
    if ar and name in ('power', 'minimum', 'maximum', 'sqrt', 'sign', 'abs'):
        from . import npfuncs
        r = npfuncs.call(I, st, 'numpy.' + name, name, M.Args([o] + args, kw), [o] + args, kw, n, False)
        return r.w(sp=o.sp) if r is not None else None
    if name in ('getrow', 'getcol'):
        return top(deps=deps, sym=sym, deg=o.deg, sp=True)
    if name == 'count_nonzero' or name == 'getnnz':
        return V('num', shape=(), dt='i', deg=F0, deps=deps, sym=sym)
    if name in ('solve', 'query', 'query_ball_point', 'predict'):
        if name == 'solve' and o.ex('lu') is not None:
            d = None
            b = args[0] if args else None
            if b is not None and isinstance(b.deg, Fraction) and isinstance(o.deg, Fraction):
                d = b.deg - o.deg
            return V(b.kind, shape=b.shape, deps=deps, sym=sym, dt='f', deg=d) if b is not None else top(deps=deps, sym=sym)
        I.ev('callback', n, st, name=name) if o.kind == 'top' and o.roots else None
        return top(deps=deps, sym=sym)
    return None


def strmeth(I, st, o, name, args, kw, n, deps, sym):
    c = o.const
    if isinstance(c, Other) and name in ('lower', 'upper', 'strip', 'casefold', 'lstrip', 'rstrip', 'title', 'replace'):
        return o
    cs = [a.const for a in args]
    if isinstance(c, str) and all(isinstance(k, (str, int)) and not isinstance(k, Other) for k in cs) and not kw:
        try:
            r = getattr(c, name)(*cs)
            if isinstance(r, (str, bool, int)):
                return const(r).w(deps=deps)
            if isinstance(r, (list, tuple)):
                return tup([const(k) for k in r], 'list')
        except Exception:
            pass
    if isinstance(c, Other):
        if name in ('startswith', 'endswith'):
            return V('num', shape=(), dt='b', deps=deps, sym=sym)      # some unrecognised value has the prefix
        if name in ('isdigit', 'isalpha'):
            return V('num', shape=(), dt='b', deps=deps, sym=sym)
    if name in ('lower', 'strip', 'upper', 'replace', 'join', 'format', 'rstrip', 'lstrip', 'casefold', 'decode', 'encode', 'zfill', 'rjust', 'ljust'):
        for a in args:
            if name == 'join':
                pass
        return V('str', deps=deps, sym=T.mk('lower', o.sym) if name in ('lower', 'casefold') else sym)
    if name in ('split', 'splitlines', 'rsplit'):
        return V('list', elem=V('str', deps=deps, sym=T.mk('piece', sym)), deps=deps, sym=sym, aid=new_aid())
    if name in ('startswith', 'endswith', 'isdigit', 'isspace', 'isalpha'):
        return V('num', shape=(), dt='b', deg=F0, tw=0, row='I', deps=deps, sym=sym)
    if name in ('find', 'index', 'count', 'rfind'):
        return V('num', shape=(), dt='i', deg=F0, tw=0, deps=deps, sym=sym)
    return top(deps=deps, sym=sym)


def listmeth(I, st, o, name, args, kw, n, deps, sym):
    x = args[0] if args else None
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
        ret = const(None)
        if name == 'append':
            if o.items is not None and len(o.items) < 48:
                new = tup(o.items + (x,), 'list').w(aid=o.aid, roots=o.roots | (x.roots if x.kind != 'num' or x.shape != () else E0), deps=deps)
                if not o.items and isinstance(x.row, tuple) and x.row[0] == 'R':
                    new = new.wex(rowlist=True)
                elif o.ex('rowlist') and x.row == (o.items[-1].row if o.items else None):
                    new = new.wex(rowlist=True)
            else:
                new = V('list', elem=I.list_elem(o, tup([x])), deps=deps, roots=o.roots | x.roots, aid=o.aid, extra=o.extra,
                        sym=T.mk('append', o.sym, x.sym))
        elif name == 'extend':
            its = I.iter_items(x)
            if o.items is not None and its is not None and len(o.items) + len(its) < 48:
                new = tup(o.items + tuple(its), 'list').w(aid=o.aid, roots=o.roots | x.roots, deps=deps)
            else:
                e = x if x.kind in ('list', 'tuple') else V('list', elem=I.iter_elem(x, st, n, I.pos(n) + '|ext'), sym=x.sym)
                new = V('list', elem=I.list_elem(o, e), deps=deps, roots=o.roots | x.roots, aid=o.aid,
                        sym=T.mk('extend', o.sym, x.sym))
        elif name == 'insert':
            c = cnum(x)
            if o.items is not None and isinstance(c, int):
                its = list(o.items)
                its.insert(c, args[1])
                new = tup(its, 'list').w(aid=o.aid, roots=o.roots)
            else:
                new = V('list', elem=I.list_elem(o, tup([args[1]])), deps=deps, roots=o.roots, aid=o.aid, sym=sym)
        elif name == 'pop':
            c = cnum(x) if x is not None else -1
            if o.items is not None and isinstance(c, int) and -len(o.items) <= c < len(o.items):
                its = list(o.items)
                ret = its.pop(c)
                new = tup(its, 'list').w(aid=o.aid, roots=o.roots)
            else:
                e = I.list_elem(o)
                ret = e.w(sym=T.mk('pop', o.sym), deps=e.deps | deps) if e is not None else top(deps=deps, roots=o.roots, sym=T.mk('pop', o.sym))
                new = V('list', elem=e, deps=deps, roots=o.roots, aid=o.aid, sym=sym)
        else:
            new = V('list', elem=I.list_elem(o), deps=deps, roots=o.roots, aid=o.aid, sym=sym)
            if name == 'reverse' and o.items is not None:
                new = tup(o.items[::-1], 'list').w(aid=o.aid, roots=o.roots)
            if name == 'clear':
                new = tup((), 'list').w(aid=o.aid, roots=o.roots)
            if name == 'sort':
                for v in kw.values():
                    if v.kind in ('func', 'method') and I.list_elem(o) is not None:
                        I.call(st, v, [I.list_elem(o)], {}, n)
        I.mutate(st, o, n, '.' + name + '()', args, new)
        return ret
    if name == 'copy':
        return o.w(aid=new_aid(), roots=E0)
    if name in ('index', 'count'):
        return V('num', shape=(), dt='i', deg=F0, tw=0, deps=deps, sym=sym)
    return top(deps=deps, sym=sym)


def dictmeth(I, st, o, name, args, kw, n, deps, sym):
    d = st.heap.get(o.addr, {}) if o.addr is not None else {}
    x = args[0] if args else None
    if name == 'get' or name == 'setdefault' or name == 'pop':
        if name != 'get':
            if o.roots:
                I.ev('mutate', n, st, roots=tuple(sorted(o.roots)), how='.' + name + '()')
        known = x is not None and x.const is not NOC and not isinstance(x.const, Other)
        try:
            if known and x.const in d:
                r = d[x.const]
                if name == 'pop':
                    d = dict(d)
                    d.pop(x.const)
                    st.heap[o.addr] = d
                return r
        except TypeError:
            known = False
        if (known or x is not None and isinstance(x.const, Other)) and '__other__' not in d and o.addr is not None and not o.roots:
            if len(args) > 1:
                if name == 'setdefault' and known:
                    d = dict(d)
                    d[x.const] = args[1]
                    st.heap[o.addr] = d
                return args[1]
            if name == 'get':
                return const(None)
            from .interp import PathDead
            I.ev('keyerror', n, st)
            raise PathDead('KeyError')
        r = args[1] if len(args) > 1 else (const(None) if name == 'get' else None)
        for v in d.values():
            r = v if r is None else joinv(r, v)
        if r is None:
            return top(deps=deps, roots=o.roots, sym=sym)
        return r.w(deps=r.deps | deps, sym=sym)
    if name in ('update', 'clear', 'popitem'):
        if o.roots:
            I.ev('mutate', n, st, roots=tuple(sorted(o.roots)), how='.' + name + '()')
        d = dict(d)
        if name == 'clear':
            d = {}
        elif name == 'update':
            if x is not None and x.kind == 'dict' and x.addr in st.heap:
                d.update(st.heap[x.addr])
            elif x is not None:
                d['__other__'] = top(deps=x.deps)
            d.update(kw)
        if o.addr is not None:
            st.heap[o.addr] = d
        return const(None)
    if name in ('items', 'keys', 'values'):
        if '__other__' not in d and o.addr is not None and not o.roots:
            if name == 'items':
                return tup([tup([const(k), v]) for k, v in d.items()], 'list')
            if name == 'keys':
                return tup([const(k) for k in d], 'list')
            return tup(list(d.values()), 'list')
        el = None
        for v in d.values():
            el = v if el is None else joinv(el, v)
        return V('list', elem=el if name == 'values' else None, deps=deps, roots=o.roots, sym=sym)
    if name == 'copy':
        return I.mkdict(st, dict(d), o.deps, E0, I.pos(n))
    return top(deps=deps, sym=sym)
