"""Transfer functions for Python builtins and the standard library."""
import ast
from fractions import Fraction
from .terms import T, Poly
from .values import V, NOC, Other, E0, const, tup, top, intv, udeps, uroots, joinv, new_aid
from .npcore import cnum, is_sc, F0, shape_val
from . import npmodel as M


def call(I, st, f, args, kw, n, star):
    vs = list(args) + list(kw.values())
    deps = udeps(vs)
    sym = M.csym('builtins.' + f, args, kw)
    A = M.Args(args, kw)
    x = args[0] if args else None
    if f == '__getattr__':
        return top(deps=deps)
    if f == 'len':
        if x is None:
            return top()
        if x.items is not None and x.kind in ('tuple', 'list', 'range'):
            return const(len(x.items)).w(deps=x.deps if x.kind == 'list' else E0)
        if x.kind == 'num' and x.shape is not None and len(x.shape) >= 1:
            if x.ex('squeezed'):
                from .npcore import collapses
                collapses(I, st, x, n, 'the length of a squeezed array')
            return shape_val(x, 0).w(deps=I.sizedeps(x.deps))
        if x.kind == 'dict' and x.addr in st.heap and '__other__' not in st.heap[x.addr] and not x.roots:
            return const(len(st.heap[x.addr]))
        if x.ex('shapeof') is not None:
            return V('num', shape=(), dt='i', deg=F0, tw=0, row='I', deps=x.deps, sym=T.mk('ndim', x.ex('shapeof').sym))
        if isinstance(x.const, str):
            return const(len(x.const))
        if x.ex('scalar') or (x.kind == 'num' and x.shape == ()):
            I.ev('len_of_scalar', n, st)
        return V('num', shape=(), dt='i', deg=F0, tw=0, row='I', deps=deps, sym=T.mk('len', x.sym),
                 poly=Poly.atom(f'len{x.sym}'))
    if f == 'range':
        return range_(args, deps)
    if f == 'print':
        I.ev('print', n, st)
        return const(None)
    if f in ('int', 'float', 'bool', 'complex'):
        if not args:
            return const({'int': 0, 'float': 0.0, 'bool': False, 'complex': 0j}[f])
        c = cnum(x)
        if c is not None:
            try:
                return const({'int': int, 'float': float, 'bool': bool, 'complex': complex}[f](c)).w(deps=deps)
            except Exception:
                pass
        if f == 'bool':
            t = I.truth(x, st)
            if t is not None:
                return const(t).w(deps=deps)
            return x.w(kind='num', shape=(), dt='b', const=NOC, roots=E0, extra=None,
                       deg=x.deg if x.deg == 'X' else F0) if x.dt == 'b' else \
                V('num', shape=(), dt='b', deg=F0, tw=x.tw if x.tw in (0, 'T') else None, deps=deps, sym=sym, row=x.row)
        dt = {'int': 'i', 'float': 'f', 'complex': 'c'}[f]
        if x.kind == 'str':
            return V('num', shape=(), dt=dt, deg=F0, tw=0, row=x.row, deps=deps, sym=sym)
        y = M.cast(I, st, x if x.kind in ('num', 'top') else top(deps=deps, sym=x.sym), dt, n)
        return y.w(kind='num', shape=(), roots=E0, base=(), aid=None, sp=False,
                   row=y.row if y.row in ('I', 'M') or isinstance(y.row, tuple) and y.row[0] == 'R' else None)
    if f == 'str' or f == 'repr' or f == 'format':
        if x is not None and x.const is not NOC and not isinstance(x.const, Other) and f == 'str':
            return const(str(x.const)).w(deps=deps)
        return V('str', deps=deps, sym=sym)
    if f in ('tuple', 'list'):
        if x is None:
            return tup((), f)
        its = I.iter_items(x)
        if its is not None:
            return tup(its, f).w(roots=E0, deps=x.deps | udeps(its))
        el = I.iter_elem(x, st, n, f'{I.pos(n)}|{f}')
        return V(f, elem=el, deps=deps, sym=sym, roots=E0, aid=new_aid() if f == 'list' else None,
                 extra={'rowlist': True} if x.ex('rowlist') else None)
    if f in ('set', 'frozenset'):
        its = I.iter_items(x) if x is not None else []
        return V('set', items=tuple(its) if its is not None else None, deps=deps, sym=sym, aid=new_aid(),
                 elem=I.list_elem(tup(its)) if its else (I.iter_elem(x, st, n, I.pos(n) + '|set') if x is not None and its is None else None))
    if f == 'dict':
        d = dict(kw)
        if x is not None:
            if x.kind == 'dict' and x.addr in st.heap:
                d2 = dict(st.heap[x.addr])
                d2.update(d)
                d = d2
            else:
                d['__other__'] = top(deps=deps)
        return I.mkdict(st, d, deps, E0, I.pos(n))
    if f in ('min', 'max'):
        its = list(args)
        if len(args) == 1:
            if x.kind in ('tuple', 'list') and x.items:
                its = list(x.items)
            else:
                return M.reduce_(I, st, f, M.to_array(I, st, x, n), const(0) if x.ndim != 1 and x.kind == 'num' else None, n) \
                    if x.kind in ('num', 'list') else top(deps=deps, sym=sym, extra={'scalar': True})
        cs = [cnum(i) for i in its]
        if None not in cs and its:
            return const((min if f == 'min' else max)(cs)).w(deps=deps)
        if any(i.kind not in ('num', 'top') for i in its) or not its:
            return top(deps=deps, sym=sym)
        big = its if f == 'min' else [i for i, c in zip(its, cs) if c is None or c > 0]
        if big and all(i.poly is not None and i.shape == () and i.dt == 'i' and i.poly == big[0].poly for i in big) and cnum(big[0]) is None \
                and (len(big) == len(its) or all(v > 0 and all(isinstance(a, str) and a.isalpha() for a in k) for k, v in big[0].poly.d.items())):
            return big[0].w(deps=deps)         # the same number of rows or columns each time
        deg = its[0].deg
        for i in its[1:]:
            deg = minmax_deg(I, st, its[0].w(deg=deg), i, n, f)
        from .npcore import add_tw
        tw = its[0].tw
        for i in its[1:]:
            tw = tw if tw == i.tw else M.same_tw(tw, i.tw) if 'N' in (tw, i.tw) else ('T' if {tw, i.tw} & {0} and isinstance(tw if tw != 0 else i.tw, tuple) else None)
        from .npcore import rows_of
        low = [c for c in cs if isinstance(c, int) and c >= 0]
        poly = None
        if f == 'max' and low and all(i.kind == 'num' and i.shape == () and i.dt == 'i' for i in its):
            poly = Poly.c(max(low)) + Poly.atom(f'max{T.mk(f, *sorted(i.sym for i in its))}')      # at least the largest constant
        return V('num' if all(i.kind == 'num' for i in its) else 'top', poly=poly, shape=() if all(i.shape == () for i in its) else None,
                 dt=its[0].dt if len({i.dt for i in its}) == 1 else None, deg=deg, tw=tw, row=rows_of(its),
                 deps=deps, sym=T.mk(f, *sorted(i.sym for i in its)), extra={'scalar': True})
    if f == 'abs':
        from . import npfuncs
        return npfuncs.call(I, st, 'numpy.abs', 'abs', A, args, kw, n, star)
    if f == 'sum':
        if x.kind in ('tuple', 'list') and x.items:
            r = args[1] if len(args) > 1 else x.items[0]
            for i in (x.items if len(args) > 1 else x.items[1:]):
                r = M.binop(I, st, ast.Add(), r, i, n)
            return r
        if x.kind == 'num':
            return M.reduce_(I, st, 'sum', x, const(0) if x.ndim != 1 else None, n)
        e = x.elem
        return top(deps=deps, sym=sym, deg=e.deg if e is not None else None)
    if f == 'pow':
        return M.binop(I, st, ast.Pow(), args[0], args[1], n)
    if f == 'round':
        from . import npfuncs
        r = npfuncs.call(I, st, 'numpy.round', 'round', A, args, kw, n, star)
        return r.w(dt='i', shape=()) if len(args) == 1 else r
    if f in ('any', 'all'):
        if x.kind in ('tuple', 'list') and x.items is not None:
            ts = [I.truth(i, st) for i in x.items]
            if f == 'any' and True in ts or f == 'all' and False in ts:
                return const(f == 'any').w(deps=deps)
            if None not in ts:
                return const(f != 'any').w(deps=deps)
            return V('num', shape=(), dt='b', deps=deps, deg=F0 if all(i.deg == 0 for i in x.items) else None,
                     tw=0 if all(i.tw == 0 for i in x.items) else None,
                     sym=T.mk('or' if f == 'any' else 'and', *[i.sym for i in x.items]))
        return V('num', shape=(), dt='b', deps=deps, sym=sym)
    if f == 'isinstance':
        return isinst(I, st, args, n)
    if f == 'callable':
        if x.kind in ('func', 'method', 'cls', 'bmeth') or x.kind == 'ext':
            return const(True)
        if x.kind in ('num', 'str', 'none', 'tuple', 'list', 'dict'):
            return const(False)
        return V('num', shape=(), dt='b', deg=F0, tw=0, row='I', deps=deps, sym=T.mk('callable', x.sym))
    if f == 'hasattr':
        return V('num', shape=(), dt='b', deg=F0, tw=0, row='I', deps=deps, sym=sym)
    if f == 'getattr':
        if len(args) > 1 and isinstance(args[1].const, str):
            return I.getattr(st, x, args[1].const, n)
        return top(deps=deps, roots=x.roots if x is not None else E0)
    if f == 'setattr':
        if isinstance(args[1].const, str) and len(args) == 3:
            I.store_attr(st, x, args[1].const, args[2], n)
        elif x.kind in ('mod', 'ext', 'func', 'cls'):
            I.ev('global_write', n, st, name=f'{x.path}.*')
        elif x.roots:
            I.ev('mutate', n, st, roots=tuple(sorted(x.roots)), how='setattr')
        return const(None)
    if f in ('globals', 'vars', 'locals'):
        if f == 'globals' or (f == 'vars' and x is not None and x.kind in ('mod', 'ext')):
            return V('ext', path='globals()', sym=T.mk('globals', st.f.mod.name))
        return top(deps=deps)
    if f == '__import__':
        if isinstance(x.const, str):
            if x.const.split('.')[0] in M.NATIVE:
                I.ev('native_import', n, st, name=x.const)
            I.ev('dyn_import', n, st, name=x.const)
            return I.import_module(x.const.split('.')[0], st)
        return top()
    if f == 'open':
        I.ev('open', n, st, mode=A.get(1, 'mode').const if A.get(1, 'mode') is not None else 'r', file=x)
        return top(deps=deps, sym=T.mk('open', *[a.sym for a in args]), extra={'file': True, 'notnone': True})
    if f == 'zip':
        its = [I.iter_items(a) for a in args]
        if all(i is not None for i in its) and its:
            return V('zip', items=tuple(tup(t) for t in zip(*its)), deps=deps, sym=sym)
        return V('zipabs', items=tuple(args), deps=deps, sym=sym)
    if f == 'enumerate':
        its = I.iter_items(x)
        if its is not None:
            return V('zip', items=tuple(tup([const(k), v]) for k, v in enumerate(its)), deps=deps, sym=sym)
        stop = None
        if x.kind == 'num' and x.shape:
            stop = x.shape[0]
        r = V('range', deps=E0, sym=T.mk('range', x.sym), extra={'start0': True, 'stop': stop})
        return V('zipabs', items=(r, x), deps=deps, sym=sym)
    if f in ('reversed', 'sorted', 'iter', 'filter', 'map'):
        if f == 'reversed' and I.iter_items(x) is not None:
            return tup(list(reversed(I.iter_items(x))), 'list')
        if f == 'map':
            fn, src = args[0], args[1:]
            its = [I.iter_items(s) for s in src]
            if all(i is not None for i in its):
                return tup([I.call(st, fn, list(t), {}, n) for t in zip(*its)], 'list')
            el = I.call(st, fn, [I.iter_elem(s, st, n, I.pos(n) + '|map') for s in src], {}, n)
            return V('list', elem=el, deps=deps | el.deps, sym=T.mk('map', fn.sym, *[s.sym for s in src]), aid=new_aid())
        if f == 'sorted' and x is not None:
            for v in kw.values():
                if v.kind in ('func', 'method'):
                    I.call(st, v, [I.iter_elem(x, st, n, I.pos(n) + '|key')], {}, n)
        src = args[1] if f == 'filter' else x
        el = I.iter_elem(src, st, n, I.pos(n) + '|' + f)
        return V('list', elem=el, deps=deps, sym=sym, aid=new_aid(), row=None)
    if f == 'slice':
        ps = list(args)
        ps = [const(None)] + ps + [const(None)] if len(ps) == 1 else ps + [const(None)] * (3 - len(ps))
        return V('slice', items=tuple(ps), deps=deps, sym=T.mk('slice', *[p.sym for p in ps]))
    if f == 'super':
        return top()
    if f == 'type':
        return V('top', deps=deps, sym=sym)
    if f == 'id' or f == 'hash':
        if f == 'id' or x is not None and x.kind == 'str':
            deps = deps | {f'<{f}()>'}
        return V('num', shape=(), dt='i', deg=F0, tw=0, deps=deps, sym=sym)
    if f in ('ValueError', 'Exception', 'RuntimeError', 'ImportError', 'TypeError', 'NotImplementedError', 'KeyError',
             'AssertionError', 'IndexError', 'FileNotFoundError', 'OSError', 'IOError'):
        return V('top', deps=deps, sym=sym, extra={'exc': f, 'notnone': True})
    if f in ('exec', 'eval', 'compile'):
        I.ev('dynamic_code', n, st, name=f)
        return top(deps=deps)
    if f == 'next':
        return I.iter_elem(x, st, n, I.pos(n) + '|next')
    if f == 'divmod':
        return tup([M.binop(I, st, ast.FloorDiv(), args[0], args[1], n), M.binop(I, st, ast.Mod(), args[0], args[1], n)])
    if f == 'property' and x is not None and x.kind == 'func':
        return x.wex(prop=True)
    if f in ('staticmethod',) and x is not None and x.kind == 'func':
        return x.wex(static=True)
    return top(deps=deps, sym=sym)


def minmax_deg(I, st, a, b, n, what):
    x, y = a.deg, b.deg
    if x == y:
        return x
    if x == 'X' or y == 'X':
        return 'X'
    for p, q, pv in ((x, y, a), (y, x, b)):
        if p == 'Z':
            return q
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        I.ev('deg_clash', n, st, what=what, a=str(x), b=str(y))
        return 'X'
    return None


def range_(args, deps):
    sym = T.mk('range', *[a.sym for a in args])
    cs = [cnum(a) for a in args]
    if all(isinstance(c, int) for c in cs) and cs:
        r = range(*cs) if len(cs) < 3 or cs[2] != 0 else range(0)
        if len(r) <= 16:
            return V('range', items=tuple(const(i) for i in r), deps=deps, sym=sym,
                     extra={'start0': len(cs) == 1 or cs[0] == 0, 'stop': Poly.c(len(r))})
    start0 = len(args) == 1 or cs[0] == 0 and len(args) == 2
    stop = M.dimpoly(args[0] if len(args) == 1 else args[1]) if args else None
    return V('range', deps=deps, sym=sym, extra={'start0': start0, 'stop': stop, 'stopv': args[0] if len(args) == 1 else args[1] if args else None})


def isinst(I, st, args, n):
    x = args[0]
    t = args[1] if len(args) > 1 else None
    sym = T.mk('isinstance', x.sym, t.sym if t is not None else -1)
    names = []
    for q in (t.items if t is not None and t.kind == 'tuple' and t.items is not None else [t] if t is not None else []):
        names.append(q.path.split('.')[-1] if q.path else '?')
    res = None
    if x.kind in ('func', 'dict', 'none', 'inst', 'mod', 'cls', 'tuple', 'list', 'str', 'range', 'set') or x.const is not NOC or is_sc(x):
        py = {'str': 'str', 'tuple': 'tuple', 'list': 'list', 'dict': 'dict', 'none': 'NoneType', 'set': 'set', 'range': 'range'}.get(x.kind)
        if isinstance(x.const, Other):
            py = 'str'
        elif isinstance(x.const, (bool, int, float)):
            py = type(x.const).__name__
        if py == 'str' and isinstance(x.const, Other) and 'str' not in names:
            res = False
        elif py is not None:
            res = py in names or (py == 'bool' and 'int' in names)
            if not res and any(k in names for k in ('Number', 'Real', 'Integral', 'number', 'integer', 'floating', '?', 'Iterable', 'Sequence')):
                res = None
        elif x.kind == 'inst' and x.ex('cls') is not None:
            cs, c = [], x.ex('cls')
            res = any(q is not None and q.path == c.path for q in ([t] if t.kind != 'tuple' else t.items or []))
    elif x.kind == 'num' and x.shape != () and x.shape is not None and not x.sp:
        if names == ['ndarray']:
            res = True
        elif set(names) <= {'str', 'int', 'float', 'bool', 'tuple', 'list', 'dict'}:
            res = False
    if res is not None:
        return const(res).w(deps=x.deps)
    return V('num', shape=(), dt='b', deg=F0, tw=0, row='I', deps=x.deps, sym=sym)


WRITE_OS = ('remove', 'unlink', 'mkdir', 'makedirs', 'rename', 'rmdir', 'system', 'chdir', 'replace', 'removedirs', 'symlink',
            'link', 'truncate', 'putenv', 'environ', 'popen', 'chmod', 'open', 'write', 'mkstemp', 'mkdtemp', 'NamedTemporaryFile',
            'TemporaryFile', 'TemporaryDirectory', 'kill', 'utime')


ENVIRON = {'os.getenv', 'os.environ.get', 'os.environ.setdefault', 'os.cpu_count', 'os.getpid', 'os.getcwd', 'os.listdir', 'os.scandir', 'os.urandom', 'os.times',
           'os.uname', 'os.getlogin', 'os.path.getmtime', 'os.path.abspath', 'os.path.realpath', 'os.path.expanduser', 'os.walk', 'os.stat',
           'sys.getrefcount', 'sys.getsizeof', 'sys.getrecursionlimit', 'threading.get_ident', 'threading.active_count',
           'multiprocessing.cpu_count', 'sys._getframe', 'gc.get_objects'}


def stdlib(I, st, path, args, kw, n):
    vs = list(args) + list(kw.values())
    deps = udeps(vs)
    sym = M.csym(path, args, kw)
    root, last = path.split('.')[0], path.split('.')[-1]
    x = args[0] if args else None
    if path in ('sys.stdout.write', 'sys.stderr.write', 'sys.stdout.writelines', 'sys.stderr.writelines', 'os.write'):
        I.ev('print', n, st)
        return const(None)
    if root == 'logging' and last in ('warning', 'error', 'critical', 'exception', 'basicConfig'):
        I.ev('print', n, st)
        return const(None)
    if root == 'warnings':
        I.ev('warn', n, st)
        if last in ('filterwarnings', 'simplefilter', 'resetwarnings'):
            I.ev('global_write', n, st, name=path)
        return const(None)
    if root == 'sys' and last in ('exit',):
        from .interp import PathDead
        raise PathDead('exit')
    if root == 'sys' and last in ('setrecursionlimit',):
        I.ev('global_write', n, st, name=path)
    if path in ('os._exit', 'os.abort'):
        from .interp import PathDead
        raise PathDead('exit')
    if (root in ('os', 'shutil', 'tempfile', 'subprocess', 'io', 'urllib', 'socket') and '.path.' not in path and
            (last in WRITE_OS or root in ('shutil', 'subprocess', 'tempfile', 'urllib', 'socket'))) or path == 'io.open':
        if path in ('open', 'io.open'):
            I.ev('open', n, st, mode=kw['mode'].const if 'mode' in kw else args[1].const if len(args) > 1 else 'r', file=x)
            return top(deps=deps, sym=sym, extra={'file': True, 'notnone': True})
        I.ev('fs', n, st, name=path, file=x)
        return top(deps=deps, sym=sym)
    if root in ('time', 'datetime') and last not in ('sleep', 'timedelta'):
        I.ev('time', n, st)
        return V('num', shape=(), dt='f', deg=F0, tw=0, row='I', sym=T.fresh('time'), deps=frozenset(['<clock>']))
    if root in ('platform', 'uuid', 'secrets', 'getpass', 'locale', 'glob') or path in ENVIRON:
        return top(deps=deps | {'<environment: %s>' % path}, sym=T.fresh('env'))
    if root == 'math':
        if last in M.CONSTS:
            return const(M.CONSTS[last])
        from . import npfuncs
        al = {'fabs': 'abs', 'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'atan2': 'arctan2', 'dist': None, 'pow': 'power'}
        nm = al.get(last, last)
        r = npfuncs.call(I, st, 'numpy.' + nm, nm, M.Args(args, kw), args, kw, n, False) if nm else None
        if r is not None:
            if last in ('floor', 'ceil', 'trunc'):
                r = r.w(dt='i')
            return r
        return top(deps=deps, sym=sym, extra={'scalar': True})
    if root == 'copy' and x is not None:
        if x.kind in ('num', 'top', 'list'):
            return M.copyv(x)
        if x.kind == 'dict' and x.addr in st.heap:
            return I.mkdict(st, dict(st.heap[x.addr]), x.deps, E0, I.pos(n))
        if x.kind == 'inst' and x.addr in st.heap:
            addr = f'o{new_aid()}'
            d = dict(st.heap[x.addr])
            if last == 'deepcopy':
                d = {k: (M.copyv(v) if v.kind in ('num', 'top', 'list') else v) for k, v in d.items()}
            st.heap[addr] = d
            return x.w(addr=addr, roots=E0)
        return x
    if root == 'functools' and last in ('lru_cache', 'cache', 'cached_property'):
        I.ev('cache_decorator', n, st, name=path)
        return x if x is not None and x.kind == 'func' else top()
    if root == 'functools' and last == 'partial' and x is not None:
        return top(deps=deps, sym=sym)
    if path == 'os.path.splitext':
        return tup([V('str', deps=deps, sym=T.mk('item', sym, 0)), V('str', deps=deps, sym=T.mk('item', sym, 1))])
    if path.startswith('os.path') or path in ('os.fspath', 'os.getcwd'):
        return V('str', deps=deps, sym=sym) if last not in ('exists', 'isfile', 'isdir', 'getsize') else \
            V('num', shape=(), dt='b' if last != 'getsize' else 'i', deps=deps, sym=sym)
    if root == 'csv' and last == 'reader':
        return V('list', elem=V('list', elem=V('str', deps=deps, sym=T.mk('csvcell', sym)), deps=deps, sym=T.mk('csvrow', sym)),
                 deps=deps, sym=sym)
    if root == 'itertools':
        if last == 'product' and all(I.iter_items(a) is not None for a in args) and not kw:
            import itertools
            ps = list(itertools.product(*[I.iter_items(a) for a in args]))
            if len(ps) <= 64:
                return tup([tup(p) for p in ps], 'list')
        if last == 'combinations' and I.iter_items(x) is not None and isinstance(cnum(args[1]), int):
            import itertools
            ps = list(itertools.combinations(I.iter_items(x), cnum(args[1])))
            if len(ps) <= 64:
                return tup([tup(p) for p in ps], 'list')
        return top(deps=deps, roots=uroots(vs), sym=sym)
    if root == 'importlib' and last == 'import_module' and x is not None and isinstance(x.const, str):
        if x.const.split('.')[0] in M.NATIVE:
            I.ev('native_import', n, st, name=x.const)
        I.ev('dyn_import', n, st, name=x.const)
        return I.import_module(x.const, st)
    return top(deps=deps, sym=sym)
