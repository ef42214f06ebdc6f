"""Abstract interpreter over the Python sources (nothing in the analysed tree is executed).

Every statement is interpreted on abstract values (values.V).  Branches on
undecided conditions are followed both ways; paths are kept apart only while the
condition is a function of option parameters, and are joined otherwise.  Calls to
functions of the analysed package are inlined, library calls go through the
transfer functions of npmodel.py, everything unknown becomes `top`.
"""
import ast
import builtins
from fractions import Fraction
from .terms import T, Poly
from .values import (notnone, V, NOC, Other, E0, const, tup, top, intv, udeps, uroots, joinv, jdeg, jtw,
                     jrow, jshape, jdt, new_aid)

NATIVE = ('gpytoolbox_bindings', 'gpytoolbox_bindings_copyleft')
LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'}
ARR_MUT = {'sort', 'fill', 'resize', 'partition', 'put', 'itemset', 'setfield', 'setflags',
           'setdiag', 'eliminate_zeros', 'sum_duplicates', 'sort_indices', 'prune'}
DICT_MUT = {'update', 'pop', 'popitem', 'setdefault', 'clear'}
SET_MUT = {'add', 'discard', 'remove', 'update', 'pop', 'clear'}
ANY_MUT = LIST_MUT | ARR_MUT | DICT_MUT | SET_MUT
CAP = 24
DEPTH = 40


class PathDead(Exception):
    """No normal continuation from here (every callee path raises)."""
    def __init__(self, why=''):
        super().__init__(why)
        self.why = why


class Frame:
    __slots__ = ('fid', 'qual', 'mod', 'env', 'parents', 'globals_', 'node', 'callnode', 'nonlocals',
                 'closure')

    def __init__(self, fid, qual, mod, env, parents, node, callnode):
        self.fid, self.qual, self.mod, self.env = fid, qual, mod, env
        self.parents, self.node, self.callnode = parents, node, callnode
        self.globals_ = set()
        self.nonlocals = set()
        self.closure = None

    def copy(self):
        f = Frame(self.fid, self.qual, self.mod, dict(self.env), self.parents, self.node, self.callnode)
        f.globals_ = self.globals_
        f.nonlocals = self.nonlocals
        f.closure = self.closure
        return f


class State:
    __slots__ = ('frames', 'heap', 'facts', 'pcdeps', 'rng', 'conds', 'dead')

    def __init__(self):
        self.frames, self.heap, self.facts = [], {}, {}
        self.pcdeps = E0
        self.rng = T.mk('rng0')
        self.conds = ()
        self.dead = False

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.pcdeps = self.pcdeps
        s.rng = self.rng
        s.conds = self.conds
        return s

    def become(self, o):
        self.frames, self.heap, self.facts = o.frames, o.heap, o.facts
        self.pcdeps, self.rng, self.conds = o.pcdeps, o.rng, o.conds

    @property
    def f(self):
        return self.frames[-1]


def join_heap(a, b, c):
    out = dict(a)
    for k, v in b.items():
        if k not in out:
            out[k] = v
        elif out[k] is not v:
            d = dict(out[k])
            for kk, vv in v.items():
                d[kk] = joinv(d[kk], vv, c) if kk in d else vv
            out[k] = d
    return out


def join_states(states, c=None, mb=True):
    """Join states with identical frame stacks."""
    r = states[0]
    if len(states) == 1:
        return r
    out = r.copy()
    for s in states[1:]:
        if len(s.frames) != len(out.frames):
            continue
        for fa, fb in zip(out.frames, s.frames):
            ea, eb = fa.env, fb.env
            for k in list(ea):
                if k in eb:
                    if ea[k] is not eb[k]:
                        ea[k] = joinv(ea[k], eb[k], c)
                elif mb:
                    ea[k] = ea[k].w(mb=True)
            for k in eb:
                if k not in ea:
                    ea[k] = eb[k].w(mb=True) if mb else eb[k]
        out.heap = join_heap(out.heap, s.heap, c)
        out.facts = {k: v for k, v in out.facts.items() if s.facts.get(k) == v}
        out.pcdeps = out.pcdeps | s.pcdeps
        if out.rng != s.rng:
            out.rng = T.mk('phi', c if c is not None else -1, out.rng, s.rng)
        n = 0
        for x, y in zip(out.conds, s.conds):
            if x != y:
                break
            n += 1
        out.conds = out.conds[:n]
    return out


def vkey(v, d=0):
    if v is None or d > 6:
        return None
    return (v.kind, repr(v.const), v.shape, v.poly, v.deg, v.tw, v.row, v.dt, v.roots, v.deps, v.mb,
            tuple(vkey(i, d + 1) for i in v.items) if v.items is not None else None,
            vkey(v.elem, d + 1) if v.elem is not None else None)


def skey(st):
    return tuple(tuple(sorted((k, vkey(v)) for k, v in f.env.items())) for f in st.frames), \
        tuple(sorted((a, tuple(sorted((str(k), vkey(v)) for k, v in o.items() if isinstance(v, V))))
                     for a, o in st.heap.items()))


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ANY_MUT:
                b = n.func.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
    return out


class Event:
    __slots__ = ('kind', 'node', 'mod', 'qual', 'stack', 'info', 'conds')

    def __init__(self, kind, node, mod, qual, stack, info, conds):
        self.kind, self.node, self.mod, self.qual = kind, node, mod, qual
        self.stack, self.info, self.conds = stack, info, conds

    @property
    def where(self):
        return f'{self.mod.rel}:{getattr(self.node, "lineno", 0)} in {self.qual.split(":")[-1]}'

    def __repr__(self):
        return f'<{self.kind} {self.where} {self.info}>'


ERRORS = frozenset(['unbound', 'bad_call', 'index_error', 'shape_mismatch', 'keyerror', 'none_arith', 'none_attr', 'unpack_mismatch',
                    'len_of_scalar', 'noattr', 'none_item', 'shape_generic'])


class Interp:
    def __init__(self, proj, **opts):
        self.p = proj
        self.opts = opts
        self.events = []
        self.evseen = set()
        self.fid = 0
        self.callstack = []
        self.entered = set()
        self.steps = 0
        self.whole = {}
        self.uninit_at, self.fills, self.uninit_ret, self.uninit_shape = {}, {}, {}, {}
        self.nstores = 0
        self.nerr, self.okn = 0, set()      # errors met, expressions that were evaluated without one
        self.max_steps = opts.get('max_steps', 400000)
        self.calls_seen = set()
        self.unknown_calls = {}
        self.internal = []
        self.returns_log = opts.get('returns_log')
        self.ifexps = {}
        self.mod_envs = {}
        from . import npmodel
        self.np = npmodel

    # ------------------------------------------------------------ events
    def ev(self, kind, node, st, **info):
        if kind in ERRORS:
            self.nerr += 1
        f = st.f if st.frames else None
        mod = f.mod if f else getattr(node, '_mod', None)
        key = (kind, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), mod.rel if mod else '',
               repr(sorted((k, repr(v)) for k, v in info.items() if k != 'vals')))
        if key in self.evseen:
            return
        self.evseen.add(key)
        self.events.append(Event(kind, node, mod, f.qual if f else '', tuple(self.callstack), info,
                                 st.conds))

    # ------------------------------------------------------------ modules
    def module_env(self, name):
        if name in self.mod_envs:
            return self.mod_envs[name]
        m = self.p.modules.get(name)
        if m is None:
            return None
        env = {}
        self.mod_envs[name] = env
        st = State()
        self.fid += 1
        st.frames.append(Frame(self.fid, f'{name}:<module>', m, env, (), m.tree, None))
        env['__name__'] = const(name)
        env['__file__'] = V('str', sym=T.mk('file', name))
        try:
            outs = self.exec_block(m.tree.body, [st])
            normal = [s for k, s, v in outs if k == 'normal']
            if normal:
                j = join_states(normal)
                final = dict(j.frames[0].env)
                env.clear()
                env.update(final)
                self.mod_heap = getattr(self, 'mod_heap', {})
                self.mod_heap.update(j.heap)
        except PathDead:
            pass
        for k, v in list(env.items()):
            if v.kind in ('num', 'list', 'dict', 'inst', 'top', 'tuple', 'set'):
                if not (v.kind == 'num' and v.shape == ()):
                    env[k] = v.w(roots=frozenset([f'global:{name}.{k}']))
        return env

    def import_module(self, name, st):
        if name.split('.')[0] == 'gpytoolbox' and name in self.p.modules:
            return V('mod', path=name, sym=T.mk('mod', name))
        return V('ext', path=name, sym=T.mk('ext', name))

    def mod_attr(self, modname, attr):
        env = self.module_env(modname)
        if env is not None and attr in env:
            return env[attr]
        sub = f'{modname}.{attr}'
        if sub in self.p.modules:
            return V('mod', path=sub, sym=T.mk('mod', sub))
        return None

    # ------------------------------------------------------------ names
    def lookup(self, name, st, node=None):
        f = st.f
        v = f.env.get(name)
        if v is not None and name not in f.globals_:
            if v.mb and node is not None:
                self.ev('maybe_unbound', node, st, name=name)
                v = v.w(mb=False)
                f.env[name] = v
            return v
        for fid in f.parents:
            for g in reversed(st.frames):
                if g.fid == fid and name in g.env:
                    return g.env[name]
        cap = f.closure
        if cap is not None and name in cap:
            return cap[name]
        env = self.module_env(f.mod.name)
        if env is not None and name in env:
            v = env[name]
            if v.roots and node is not None:
                self.ev('global_read', node, st, name=f'{f.mod.name}.{name}')
            return v
        if hasattr(builtins, name):
            b = getattr(builtins, name)
            if b in (None, True, False):
                return const(b)
            return V('ext', path='builtins.' + name, sym=T.mk('ext', 'builtins.' + name))
        if node is not None and st.frames[-1].qual.endswith('<module>') is False:
            self.ev('unbound', node, st, name=name)
            raise PathDead('UnboundLocalError ' + name)
        return top(sym=T.mk('global', f.mod.name, name))

    # ------------------------------------------------------------ blocks
    def exec_block(self, body, states):
        """-> list of (kind, state, value); kind in normal/return/break/continue/raise."""
        done = []
        cur = list(states)
        for s in body:
            nxt = []
            for st in cur:
                try:
                    outs = self.exec_stmt(s, st)
                except PathDead as e:
                    outs = [('raise', st, e.why)]
                for o in outs:
                    (nxt if o[0] == 'normal' else done).append(o)
            cur = self.limit([o[1] for o in nxt], s)
            if not cur:
                break
            if len(done) > 3 * CAP:
                done = self.squash(done)
        return done + [('normal', s, None) for s in cur]

    def squash(self, done):
        by = {}
        for o in done:
            by.setdefault(o[0], []).append(o)
        out = []
        for k, os in by.items():
            if k == 'return':
                out += os if len(os) < 2 * CAP else [self.join_rets(os)]
            elif k == 'raise':
                out += os[:4]
            else:
                out.append((k, join_states([o[1] for o in os]), None))
        return out

    def join_rets(self, os):
        v = os[0][2]
        for o in os[1:]:
            v = joinv(v, o[2])
        return ('return', join_states([o[1] for o in os]), v)

    def limit(self, states, node):
        if len(states) <= 1:
            return states
        if len(states) > self.opts.get('cap', CAP):
            return [join_states(states)]
        return states

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.max_steps:
            self.ev('budget', s, st)
            raise PathDead('budget')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            return [('normal', st, None)]
        return m(s, st)

    def x_Pass(self, s, st):
        return [('normal', st, None)]

    def x_Expr(self, s, st):
        if not isinstance(s.value, ast.Constant):
            self.eval(s.value, st)
        return [('normal', st, None)]

    def x_Global(self, s, st):
        st.f.globals_ = st.f.globals_ | set(s.names)
        return [('normal', st, None)]

    def x_Nonlocal(self, s, st):
        st.f.nonlocals = st.f.nonlocals | set(s.names)
        return [('normal', st, None)]

    def x_Import(self, s, st):
        for a in s.names:
            root = a.name if a.asname else a.name.split('.')[0]
            if a.name.split('.')[0] in NATIVE:
                self.ev('native_import', s, st, name=a.name)
            st.f.env[a.asname or root] = self.import_module(root, st)
        return [('normal', st, None)]

    def x_ImportFrom(self, s, st):
        src = self.p.resolve_from(st.f.mod, s)
        for a in s.names:
            if src.split('.')[0] in NATIVE:
                self.ev('native_import', s, st, name=f'{src}.{a.name}')
                v = V('ext', path=f'{src}.{a.name}', sym=T.mk('ext', f'{src}.{a.name}'))
            elif src in self.p.modules:
                v = self.mod_attr(src, a.name)
                if v is None:
                    v = top(sym=T.mk('imp', src, a.name))
                elif st.f.mod.name != src and v.kind == 'mod' and f'{src}.{a.name}' not in self.p.modules:
                    pass
            else:
                v = V('ext', path=f'{src}.{a.name}', sym=T.mk('ext', f'{src}.{a.name}'))
            st.f.env[a.asname or a.name] = v
        return [('normal', st, None)]

    def x_FunctionDef(self, s, st):
        fv = self.make_func(s, st)
        for d in s.decorator_list:
            dn = ast.unparse(d)
            if dn.endswith('property'):
                fv = fv.wex(prop=True)
            elif dn == 'staticmethod':
                fv = fv.wex(static=True)
            elif dn == 'classmethod':
                fv = fv.wex(clsm=True)
            elif 'cache' in dn:
                self.ev('cache_decorator', s, st, name=s.name)
        st.f.env[s.name] = fv
        return [('normal', st, None)]

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, s, st):
        f = st.f
        defaults = {}
        a = s.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            v = self.eval(d, st)
            defaults[p.arg] = self.default_root(v, getattr(s, '_qual', f.qual), p.arg)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                v = self.eval(d, st)
                defaults[p.arg] = self.default_root(v, getattr(s, '_qual', f.qual), p.arg)
        is_mod = isinstance(f.node, ast.Module)
        parents = () if is_mod else (f.fid,) + f.parents
        name = getattr(s, '_qual', None) or f'{f.qual}.<lambda>'
        snap = None if is_mod else {**(f.closure or {}), **f.env}
        return V('func', fn=(f.mod, s), path=name, sym=T.mk('func', name, s.lineno, s.col_offset),
                 extra={'defaults': defaults, 'parents': parents, 'snap': snap})

    def default_root(self, v, qual, arg):
        if v.kind in ('list', 'dict', 'top', 'inst', 'set') or (v.kind == 'num' and v.shape != ()):
            return v.w(roots=frozenset([f'default:{qual}({arg})']))
        return v

    def x_ClassDef(self, s, st):
        f = st.f
        self.fid += 1
        fr = Frame(self.fid, getattr(s, '_qual', f.qual), f.mod, {}, (f.fid,) + f.parents, s, None)
        st.frames.append(fr)
        outs = self.exec_block(s.body, [st])
        ns = [o[1] for o in outs if o[0] == 'normal']
        if not ns:
            raise PathDead('class body')
        j = join_states(ns)
        env = j.frames[-1].env
        j.frames.pop()
        st.become(j)
        bases = [self.eval(b, st) for b in s.bases]
        is_mod = isinstance(f.node, ast.Module)
        attrs = {}
        for k, v in env.items():
            if v.kind == 'func' and is_mod:
                e = dict(v.extra)
                e['parents'] = ()
                e['snap'] = None
                v = v.w(extra=e)
            elif v.kind in ('num', 'list', 'dict', 'top', 'set') and not (v.kind == 'num' and v.shape == ()):
                v = v.w(roots=frozenset([f'global:{f.mod.name}.{s.name}.{k}']))
            attrs[k] = v
        st.f.env[s.name] = V('cls', fn=(f.mod, s), path=getattr(s, '_qual', s.name),
                             sym=T.mk('cls', getattr(s, '_qual', s.name)),
                             extra={'attrs': attrs, 'bases': bases})
        return [('normal', st, None)]

    def x_Return(self, s, st):
        if isinstance(s.value, ast.IfExp):
            return self.split_ifexp(s, st)
        v = self.eval(s.value, st) if s.value is not None else const(None)
        if st.pcdeps - v.deps:
            v = self.with_deps(v, st.pcdeps).wex(pcdeps=st.pcdeps | v.ex('pcdeps', E0))
        for d in v.deps:
            if d.startswith('<uninit'):
                self.uninit_ret.setdefault(d, set()).add((s, self.callstack[-1] if self.callstack else ''))
        if self.returns_log is not None and len(self.callstack) == 1:
            self.returns_log.append((s, st.facts.copy(), v, st.conds))
        return [('return', st, v)]

    def x_Raise(self, s, st):
        if s.exc is not None:
            try:
                self.eval(s.exc, st)
            except PathDead:
                pass
        self.ev('raise', s, st)
        return [('raise', st, 'raise')]

    def x_Break(self, s, st):
        return [('break', st, None)]

    def x_Continue(self, s, st):
        return [('continue', st, None)]

    def x_Assert(self, s, st):
        v = self.eval(s.test, st)
        t = self.truth(v, st)
        if t is False:
            return [('raise', st, 'assert')]
        self.assume(s.test, v, st, True)
        return [('normal', st, None)]

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.f.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                i = self.eval(t.slice, st)
                self.mutate(st, o, t, 'del', [i])
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                self.mutate(st, o, t, 'delattr', [])
        return [('normal', st, None)]

    # ------------------------------------------------------------ assignment
    def x_Assign(self, s, st):
        if isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
            return self.split_ifexp(s, st)
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return [('normal', st, None)]

    def split_ifexp(self, s, st):
        """`x = a if c else b` (or return) as the equivalent if statement, so that its two outcomes stay apart."""
        q = self.ifexps.get(id(s))
        if q is None:
            e = s.value
            q = ast.copy_location(ast.If(test=e.test, body=[], orelse=[]), s)
            for part, val in ((q.body, e.body), (q.orelse, e.orelse)):
                t = ast.copy_location(ast.Return(value=val) if isinstance(s, ast.Return) else
                                      ast.Assign(targets=s.targets, value=val), s)
                part.append(t)
            self.ifexps[id(s)] = q
        return self.x_If(q, st)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return [('normal', st, None)]

    def ensure_aid(self, v):
        if v.aid is None and v.kind in ('num', 'list', 'top', 'set') and not (v.kind == 'num' and v.shape == ()):
            return v.w(aid=new_aid())
        return v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            v = self.ensure_aid(v)
            f = st.f
            if t.id in f.globals_ and not isinstance(f.node, ast.Module):
                self.ev('global_write', t, st, name=f'{f.mod.name}.{t.id}')
                env = self.module_env(f.mod.name)
                return
            if t.id in f.nonlocals:
                for fid in f.parents:
                    for g in reversed(st.frames):
                        if g.fid == fid and t.id in g.env:
                            g.env[t.id] = joinv(g.env[t.id], v)
                            return
                return
            f.env[t.id] = v.w(mb=False) if v.mb else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, top(deps=v.deps, roots=v.roots, sym=T.mk('star', v.sym)), st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            idx = self.eval(t.slice, st)
            self.store_sub(st, o, idx, v, t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.store_attr(st, o, t.attr, v, t)

    def unpack(self, t, v, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if v.items is not None and v.kind in ('tuple', 'list') and not star:
            if len(v.items) == n:
                self.okn.add(id(t))
            else:
                self.ev('unpack_mismatch', t, st, want=n, got=len(v.items))
                raise PathDead('unpack')
            for e, x in zip(t.elts, v.items):
                self.assign(e, x, st)
            return
        if v.items is not None and star:
            k = star[0]
            post = n - k - 1
            its = list(v.items)
            for e, x in zip(t.elts[:k], its[:k]):
                self.assign(e, x, st)
            self.assign(t.elts[k].value, tup(its[k:len(its) - post], 'list'), st)
            for e, x in zip(t.elts[k + 1:], its[len(its) - post:]):
                self.assign(e, x, st)
            return
        for i, e in enumerate(t.elts):
            self.assign(e if not isinstance(e, ast.Starred) else e.value,
                        self.elem_at(v, i, st, t, of=n), st)

    def elem_at(self, v, i, st, node, of=None):
        """v[i] for constant i as part of unpacking."""
        if v.kind == 'none':
            self.ev('none_item', node, st, what='None unpacked')
        if v.items is not None and i < len(v.items):
            return v.items[i]
        if v.kind == 'num' and v.shape is not None and len(v.shape) >= 1:
            return self.np.getitem(self, st, v, const(i), node)
        if v.kind in ('list', 'tuple') and v.elem is not None:
            return v.elem.w(sym=T.mk('item', v.sym, i))
        r = top(deps=v.deps, roots=v.roots, sym=T.mk('item', v.sym, i), row=v.row if v.row == 'I' else None)
        if v.ex('native'):
            r = r.w(extra={'native_item': (v.ex('native'), i, of)})
        return r

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, t)
            cur = st.f.env.get(t.id, cur)
            rhs = self.eval(s.value, st)
            res = self.binop(s.op, cur, rhs, s, st)
            scalar = (cur.kind == 'num' and cur.shape == ()) or cur.kind in ('str', 'tuple', 'none') \
                or cur.ex('scalar')
            if scalar:
                self.assign(t, res.w(roots=E0, base=()), st)
                return [('normal', st, None)]
            if t.id in st.f.globals_:
                self.ev('global_write', t, st, name=f'{st.f.mod.name}.{t.id}')
            if cur.roots:
                self.ev('mutate', s, st, roots=tuple(sorted(cur.roots)), how='in-place operator')
            new = res.w(roots=cur.roots, base=cur.base, aid=cur.aid if cur.aid is not None else new_aid())
            if cur.kind == 'list':
                new = V('list', items=None, elem=self.list_elem(cur, rhs), sym=res.sym, deps=res.deps,
                        roots=cur.roots | rhs.roots, aid=new.aid)
                if cur.items is not None and rhs.items is not None:
                    new = tup(list(cur.items) + list(rhs.items), 'list').w(aid=cur.aid, roots=cur.roots | rhs.roots)
            elif cur.shape is not None:
                new = new.w(shape=cur.shape)
            if cur.dt in ('i', 'f') and cur.kind == 'num' and cur.shape != ():
                if cur.dt == 'i' and res.dt == 'f' and not cur.sp:
                    self.ev('int_store_float', s, st, why='in-place operator')
                new = new.w(dt=cur.dt)
            if t.id in st.f.env:
                st.f.env[t.id] = new
            self.replace(st, cur, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            idx = self.eval(t.slice, st)
            cur = self.subscript(st, o, idx, t)
            rhs = self.eval(s.value, st)
            res = self.binop(s.op, cur, rhs, s, st)
            self.store_sub(st, o, idx, res, t, aug=True)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.getattr(st, o, t.attr, t)
            rhs = self.eval(s.value, st)
            res = self.binop(s.op, cur, rhs, s, st)
            if cur.roots and not (cur.kind == 'num' and cur.shape == ()) and not cur.ex('scalar'):
                self.ev('mutate', s, st, roots=tuple(sorted(cur.roots)), how='in-place operator')
            self.store_attr(st, o, t.attr, res, t)
        return [('normal', st, None)]

    def list_elem(self, *ls):
        el = None
        for x in ls:
            src = x.items if x.items is not None else ([x.elem] if x.elem is not None else [])
            for y in src:
                el = y if el is None else joinv(el, y)
        return el

    # ------------------------------------------------------------ mutation
    def replace(self, st, old, new):
        """Reflect an in-place change of `old` in every alias and view of it."""
        aid = old.aid

        def fix(v, depth=0):
            if v is old or (aid is not None and v.aid == aid):
                return new if not v.mb else new.w(mb=True)
            if depth > 4:
                return v
            if aid is not None and aid in v.base:
                return v.w(sym=T.mk('after', v.sym, new.sym), deg=jdeg_store(v.deg, new.deg),
                           deps=v.deps | new.deps, const=NOC, poly=None)
            if v.aid is not None and v.aid in old.base:
                return v.w(sym=T.mk('viewstore', v.sym, new.sym), deg=jdeg_store(v.deg, new.deg),
                           deps=v.deps | new.deps,
                           row=jrow(v.row, None) if v.row != new.row and new.row == 'M' else v.row)
            if v.items is not None and v.kind in ('tuple', 'list'):
                its = tuple(fix(x, depth + 1) for x in v.items)
                if any(x is not y for x, y in zip(its, v.items)):
                    return v.w(items=its, sym=T.mk(v.kind, *[i.sym for i in its]),
                               deps=v.deps | udeps(its))
            return v

        for f in st.frames:
            for k, v in f.env.items():
                if isinstance(v, V):
                    n = fix(v)
                    if n is not v:
                        f.env[k] = n
        for a, o in list(st.heap.items()):
            ch = None
            for k, v in o.items():
                if isinstance(v, V):
                    n = fix(v)
                    if n is not v:
                        ch = ch or dict(o)
                        ch[k] = n
            if ch:
                st.heap[a] = ch

    # ------------------------------------------------ memory that was never written
    def uninit(self, node, why, shape=None):
        m = f'<uninit {why}@{self.pos(node)}>'
        self.uninit_shape[m] = shape if self.uninit_shape.get(m, shape) == shape else None
        self.uninit_at.setdefault(m, (node, self.callstack[-1] if self.callstack else ''))
        self.fills.setdefault(m, [])
        return frozenset([m])

    def sizedeps(self, deps):
        """Dependencies of the size or type of a value: its unwritten contents do not matter."""
        return frozenset(d for d in deps if not d.startswith('<uninit')) if any(d.startswith('<uninit') for d in deps) else deps

    def filled(self, o, how, idx=None, aug=False, node=None):
        for d in o.deps:
            if d.startswith('<uninit') and not aug:
                if idx is not None and d in idx.deps:
                    continue      # where to write was read from the unwritten memory itself
                k = 'full' if idx is None else self.np.fill_kind(o, idx)
                self.fills.setdefault(d, []).append((k, node, self.callstack[-1] if self.callstack else ''))

    def mutate(self, st, o, node, how, args, new=None):
        if how not in ('item assignment', '.sort()', '.partition()'):
            self.filled(o, how, node=node)
        if o.roots and not (o.kind == 'num' and o.shape == ()) and o.kind not in ('str',):
            self.ev('mutate', node, st, roots=tuple(sorted(o.roots)), how=how)
        if new is None:
            new = o.w(sym=T.mk('mut', how, o.sym, *[a.sym for a in args]), deps=o.deps | udeps(args),
                      const=NOC, poly=None)
        self.replace(st, o, new)
        return new

    def store_sub(self, st, o, idx, v, node, aug=False):
        if o.kind == 'dict' and o.addr is not None:
            if o.roots:
                self.ev('mutate', node, st, roots=tuple(sorted(o.roots)), how='item assignment')
            d = dict(st.heap.get(o.addr, {}))
            if idx.const is not NOC and isinstance(idx.const, (str, int, tuple)):
                d[idx.const] = v
            else:
                d['__other__'] = v if '__other__' not in d else joinv(d['__other__'], v)
            st.heap[o.addr] = d
            return
        if o.kind == 'ext' and o.path in ('globals()', 'os.environ', 'sys.modules'):
            self.ev('global_write', node, st, name=f'{st.f.mod.name}:{o.path}')
            return
        if o.kind == 'list' and o.items is not None and isinstance(idx.const, int) \
                and not isinstance(idx.const, bool) and -len(o.items) <= idx.const < len(o.items):
            its = list(o.items)
            its[idx.const] = v
            new = tup(its, 'list').w(aid=o.aid, roots=o.roots)
            self.mutate(st, o, node, 'item assignment', [idx, v], new)
            return
        if o.kind == 'list':
            new = V('list', items=None, elem=self.list_elem(o, tup([v])), roots=o.roots | v.roots,
                    deps=o.deps | v.deps | idx.deps, sym=T.mk('store', o.sym, idx.sym, v.sym), aid=o.aid)
            self.mutate(st, o, node, 'item assignment', [idx, v], new)
            return
        self.filled(o, 'store', idx, aug, node)
        self.nstores += 1
        k = self.nerr
        new = self.np.setitem(self, st, o, idx, v, node, aug)
        if self.nerr == k:
            self.okn.add(id(node))
        k = self.whole.get(id(node))
        if k == 0 and new.shape is not None and v.kind == 'num' and v.shape is not None and not aug:
            # one of the rows that make up the whole array
            if v.tw == 0 or v.tw == 'T' or isinstance(v.tw, tuple) and v.tw[2][0] == ('v' if len(new.shape) > 1 else 'c') \
                    and len(v.shape) == len(new.shape) - 1:
                new = new.w(tw=v.tw if o.tw in (0, v.tw) else joinv(o, v).tw)
        self.mutate(st, o, node, 'item assignment', [idx, v], new)

    def store_attr(self, st, o, attr, v, node):
        if o.kind == 'inst' and o.addr is not None:
            if o.roots:
                self.ev('mutate', node, st, roots=tuple(sorted(o.roots)), how='attribute assignment')
            d = dict(st.heap.get(o.addr, {}))
            d[attr] = self.ensure_aid(v)
            st.heap[o.addr] = d
        elif o.kind in ('mod', 'ext', 'func', 'cls'):
            self.ev('global_write', node, st, name=f'{o.path}.{attr}')
        elif o.roots:
            self.ev('mutate', node, st, roots=tuple(sorted(o.roots)), how='attribute assignment')

    # ------------------------------------------------------------ control flow
    def truth(self, v, st):
        if v.const is not NOC:
            if isinstance(v.const, Other):
                return True
            try:
                return bool(v.const)
            except Exception:
                return None
        if v.kind == 'none':
            return False
        if v.kind in ('tuple', 'list') and v.items is not None:
            return len(v.items) > 0
        if v.kind in ('func', 'cls', 'mod', 'ext', 'ellipsis'):
            return True
        if v.kind == 'inst':
            return True
        if v.sym in st.facts:
            return st.facts[v.sym]
        t = T.rev[v.sym]
        if t[0] == 'not' and t[1] in st.facts:
            return not st.facts[t[1]]
        return None

    def assume(self, node, v, st, val):
        if v is not None:
            st.facts[v.sym] = val
            t = T.rev[v.sym]
            if t[0] == 'not':
                st.facts[t[1]] = not val
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            self.assume(node.operand, self.pure(node.operand, st), st, not val)
        elif isinstance(node, ast.BoolOp):
            conj = isinstance(node.op, ast.And)
            if conj == val:
                for x in node.values:
                    self.assume(x, self.pure(x, st), st, val)
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            op, r, l = node.ops[0], node.comparators[0], node.left
            eq = isinstance(op, (ast.Eq, ast.Is))
            ne = isinstance(op, (ast.NotEq, ast.IsNot))
            up = isinstance(op, (ast.Lt, ast.LtE)) if val else isinstance(op, (ast.Gt, ast.GtE))
            if (eq and val) or (ne and not val) or up:
                lv, rv = self.pure(l, st), self.pure(r, st)
                if lv is not None and rv is not None and lv.poly is not None and rv.poly is not None \
                        and (not up or rv.poly.as_int() is not None):
                    # this path constrains the declared sizes
                    for a in {a for m in (lv.poly - rv.poly).d for a in m}:
                        st.facts[T.mk('sizefact', a)] = True
            if (eq and val) or (ne and not val):
                rv = self.pure(r, st)
                if rv is not None and rv.const is not NOC and isinstance(l, ast.Name) and l.id in st.f.env:
                    old = st.f.env[l.id]
                    if isinstance(rv.const, (str, bool, type(None), int, float)) and old.const is NOC \
                            and (old.kind in ('str', 'top') or old.shape == ()):
                        st.f.env[l.id] = const(rv.const).w(deps=old.deps)
                elif rv is not None and rv.kind == 'none' and isinstance(l, ast.Attribute):
                    o = self.pure(l.value, st)
                    if o is not None and o.kind == 'inst' and o.addr in st.heap and l.attr in st.heap[o.addr]:
                        d = dict(st.heap[o.addr])
                        d[l.attr] = const(None).w(deps=d[l.attr].deps)
                        st.heap[o.addr] = d
            elif (ne and val) or (eq and not val):
                rv = self.pure(r, st)
                if rv is not None and rv.kind == 'none' and isinstance(l, ast.Name) and l.id in st.f.env:
                    old = st.f.env[l.id]
                    if old.ex('maybe_none'):
                        e = dict(old.extra)
                        e.pop('maybe_none')
                        st.f.env[l.id] = old.w(kind='num', extra=e or None)

    def pure(self, node, st):
        """Re-evaluate a side-effect-free expression; None otherwise."""
        for n in ast.walk(node):
            if isinstance(n, (ast.Call, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp)):
                return None
        try:
            k = len(self.events)
            seen = set(self.evseen)
            v = self.eval(node, st)
            del self.events[k:]
            self.evseen = seen
            return v
        except PathDead:
            return None

    def flaggy(self, sym, d=0):
        """Condition term built only from option parameters, constants and sizes."""
        t = T.rev[sym]
        if t[0] in ('c', 'native_ok', 'param', 'other', 'none'):
            return True
        if d > 8:
            return False
        if t[0] in ('not', 'and', 'or', '==', '<', '<=', 'isnone', 'in', 'dim', 'len', 'ndim', 'tuple', 'list',
                    'shapeof', 'lower', 'bin', 'poly', 'size', 'isinstance', 'isscalar', 'phi', 'callable'):
            return all(self.flaggy(x, d + 1) for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)
                       and 0 <= x < len(T.rev)) if t[0] not in ('poly',) else True
        return False

    def x_If(self, s, st):
        v = self.eval(s.test, st)
        t = self.truth(v, st)
        if t is True:
            self.assume(s.test, v, st, True)
            return self.branch_known(s.body, st, v)
        if t is False:
            self.assume(s.test, v, st, False)
            return self.branch_known(s.orelse, st, v)
        if v.tw == 'T' or v.deg == 'X':
            self.ev('cond_bad', s, st, tw=v.tw, deg=v.deg)
        a, b = st.copy(), st
        self.assume(s.test, v, a, True)
        self.assume(s.test, v, b, False)
        a.conds = a.conds + ((ast.unparse(s.test)[:60], True),)
        b.conds = b.conds + ((ast.unparse(s.test)[:60], False),)
        pre = [dict(f.env) for f in st.frames]
        preh = dict(st.heap)
        oa = self.exec_block(s.body, [a])
        ob = self.exec_block(s.orelse, [b]) if s.orelse else [('normal', b, None)]
        outs = oa + ob
        exits = any(o[0] in ('return', 'break', 'continue') for o in outs)
        cd = v.deps
        if cd:
            for k, s2, val in outs:
                if k != 'raise':
                    self.add_cdeps(s2, pre, preh, cd)
                    if exits:
                        s2.pcdeps = s2.pcdeps | cd
            outs = [(k, s2, self.with_deps(val, cd).wex(pcdeps=val.ex('pcdeps', E0) | cd)
                     if k == 'return' and cd - val.deps else val) for k, s2, val in outs]
        na = [o[1] for o in oa if o[0] == 'normal']
        nb = [o[1] for o in ob if o[0] == 'normal']
        rest = [o for o in outs if o[0] != 'normal']
        if v.row == 'M' and na and nb:
            self.mixed_guard(v, pre, na, nb)
        keep = self.flaggy(v.sym)
        if na and nb:
            if keep and len(na) + len(nb) <= CAP and not self.opts.get('nofork'):
                # identical states need not be kept apart
                if len(na) == 1 and len(nb) == 1 and self.same_env(na[0], nb[0]):
                    na[0].facts = {k: x for k, x in na[0].facts.items() if nb[0].facts.get(k) == x}
                    na[0].conds = st.conds[:len(na[0].conds) - 1] if False else na[0].conds[:-1]
                    ns = [na[0]]
                else:
                    ns = na + nb
            else:
                j = join_states(na + nb, v.sym)
                ns = [j]
        else:
            ns = na + nb
        return rest + [('normal', x, None) for x in ns]

    def mixed_guard(self, v, pre, na, nb):
        """if all/any of the rows ...: x = f(x).  A row-wise value replaced, for every row, because of what the other rows hold."""
        masks = set()

        def find(i, d=6):
            t = T.rev[i]
            if t[0] == 'red' and t[1] in ('all', 'any'):
                masks.add(t[2])
            elif d and t[0] in ('not', 'and', 'or'):
                for x in t[1:]:
                    find(x, d - 1)
        find(v.sym)
        if not masks:
            return
        for one, other in ((na, nb), (nb, na)):
            for k, old in pre[-1].items():
                if not isinstance(old, V) or old.row != ('A', 0) or any(s.f.env.get(k) is not old for s in other):
                    continue
                new = [s.f.env.get(k) for s in one]
                if all(isinstance(x, V) and x.row == ('A', 0) and x.sym != old.sym and T.rev[x.sym][0] not in ('store', 'mut', 'masked')
                       and not any(T.contains(x.sym, m) for m in masks) for x in new):
                    for s in one + other:
                        s.f.env[k] = s.f.env[k].w(row='M')

    def same_env(self, a, b):
        if len(a.frames) != len(b.frames) or a.rng != b.rng:
            return False
        for fa, fb in zip(a.frames, b.frames):
            if fa.env.keys() != fb.env.keys():
                return False
            for k in fa.env:
                x, y = fa.env[k], fb.env[k]
                if x is not y and (not isinstance(x, V) or not isinstance(y, V) or x.sym != y.sym
                                   or x.kind != y.kind or repr(x.const) != repr(y.const)):
                    return False
        if a.heap.keys() != b.heap.keys():
            return False
        for k in a.heap:
            if a.heap[k] is not b.heap[k]:
                if a.heap[k].keys() != b.heap[k].keys():
                    return False
                for kk in a.heap[k]:
                    if a.heap[k][kk] is not b.heap[k][kk] and a.heap[k][kk].sym != b.heap[k][kk].sym:
                        return False
        return True

    def branch_known(self, body, st, v):
        # a decided condition still carries its dependencies when it was decided by
        # an assumption made on this path
        if v.const is NOC and v.deps and body:
            pre = [dict(f.env) for f in st.frames]
            preh = dict(st.heap)
            outs = self.exec_block(body, [st])
            res = []
            for k, s2, val in outs:
                if k != 'raise':
                    self.add_cdeps(s2, pre, preh, v.deps)
                if k in ('return', 'break', 'continue'):
                    s2.pcdeps = s2.pcdeps | v.deps
                if k == 'return' and v.deps - val.deps:
                    val = self.with_deps(val, v.deps).wex(pcdeps=val.ex('pcdeps', E0) | v.deps)
                res.append((k, s2, val))
            return res
        if not body:
            return [('normal', st, None)]
        return self.exec_block(body, [st])

    def add_cdeps(self, st, pre, preh, cd):
        for f, p in zip(st.frames, pre):
            for k, v in f.env.items():
                if isinstance(v, V) and p.get(k) is not v and cd - v.deps:
                    f.env[k] = self.with_deps(v, cd)
        for a, o in list(st.heap.items()):
            p = preh.get(a)
            if p is not o:
                ch = None
                for k, v in o.items():
                    if isinstance(v, V) and (p is None or p.get(k) is not v) and cd - v.deps:
                        ch = ch or dict(o)
                        ch[k] = self.with_deps(v, cd)
                if ch:
                    st.heap[a] = ch

    def with_deps(self, v, cd):
        its = v.items
        if its is not None and v.kind in ('tuple', 'list'):
            its = tuple(self.with_deps(i, cd) for i in its)
        return v.w(deps=v.deps | cd, items=its)

    def pos(self, node):
        return f'{getattr(node, "_mod", None).rel if getattr(node, "_mod", None) else ""}:{node.lineno}:{node.col_offset}'

    def iter_items(self, it):
        if it.kind in ('tuple', 'list') and it.items is not None and len(it.items) <= 64:
            return list(it.items)
        if it.kind == 'range' and it.items is not None and len(it.items) <= 16:
            return list(it.items)
        if it.kind == 'num' and it.shape is not None and len(it.shape) >= 1 and it.shape[0] is not None \
                and it.shape[0].as_int() is not None and it.shape[0].as_int() <= 8 and it.ex('lit'):
            return None
        if it.kind == 'zip' and it.items is not None:
            return list(it.items)
        if it.kind == 'str' and isinstance(it.const, str) and len(it.const) <= 16:
            return [const(c) for c in it.const]
        return None

    def iter_elem(self, it, st, node, loop):
        """Abstract element of an iterable inside the abstract loop `loop`."""
        ls = T.mk('elem', it.sym, loop)
        if it.kind == 'range':
            r = it.ex('stop')
            v = V('num', shape=(), dt='i', deg=Fraction(0), tw=0, row='I', deps=it.deps, sym=ls)
            b = self.opts.get('batch')
            if b is not None and it.ex('start0') and r is not None and r == b:
                v = v.w(row=('R', loop), extra={'rowidx': loop})
            return v
        if it.kind == 'zipabs':
            return tup([self.iter_elem(x, st, node, loop) for x in it.items])
        if it.kind in ('list', 'tuple'):
            e = it.elem
            if it.items is not None:
                e = self.list_elem(it)
            if e is None:
                return top(deps=it.deps, roots=it.roots, sym=ls)
            return e.w(sym=ls, deps=e.deps | it.deps, const=NOC if e.kind == 'num' else e.const,
                       poly=None if e.kind == 'num' else e.poly)
        if it.kind in ('num', 'top'):
            v = self.np.getitem(self, st, it, V('num', shape=(), dt='i', sym=T.mk('iteridx', loop), deg=Fraction(0),
                                                tw=0, row='I'), node)
            if it.row == ('A', 0):
                v = v.w(row=('R', loop))
            return v.w(sym=ls, deps=v.deps | it.deps)
        if it.kind == 'dict':
            return top(deps=it.deps, sym=ls, extra={'scalar': True})
        return top(deps=it.deps, roots=it.roots, sym=ls)

    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        items = self.iter_items(it)
        if items is not None:
            return self.unrolled(s, st, items)
        z = self.zero_trip(it, st)
        if z is not None:
            # no iteration and at least one iteration of a loop counted by an argument are kept apart
            a = st.copy()
            a.facts[z], st.facts[z] = True, False
            for n in assigned_names(s.body) | assigned_names([s]):
                if n not in a.f.env:
                    a.f.env[n] = top(sym=T.fresh('unassigned')).w(mb=True)
            none = self.exec_block(s.orelse, [a]) if s.orelse else [('normal', a, None)]
            return self.abstract_loop(s, st, it, once=True) + none
        return self.abstract_loop(s, st, it)

    def zero_trip(self, it, st):
        if it.kind != 'range' or not it.ex('start0') or self.opts.get('nofork') or len(self.callstack) > 2:
            return None
        stop = it.ex('stopv')
        if not isinstance(stop, V) or T.rev[stop.sym][0] != 'param':
            return None
        z = T.mk('==', *sorted((T.const(0), stop.sym)))
        return None if z in st.facts else z

    def unrolled(self, s, st, items):
        cur = [st]
        done, brk = [], []
        for x in items:
            nxt = []
            for s1 in cur:
                try:
                    self.assign(s.target, x, s1)
                    outs = self.exec_block(s.body, [s1])
                except PathDead as e:
                    outs = [('raise', s1, e.why)]
                for o in outs:
                    if o[0] in ('normal', 'continue'):
                        nxt.append(o[1])
                    elif o[0] == 'break':
                        brk.append(o[1])
                    else:
                        done.append(o)
            cur = self.limit(nxt, s)
            if not cur:
                break
        if cur and s.orelse:
            outs = self.exec_block(s.orelse, cur)
            done += [o for o in outs if o[0] != 'normal']
            cur = [o[1] for o in outs if o[0] == 'normal']
        cur = self.limit(cur + brk, s)
        return done + [('normal', x, None) for x in cur]

    def age(self, st, loop):
        """Values of the current row become values of *other* rows on the next iteration."""
        def fix(v):
            if isinstance(v, V) and v.row == ('R', loop):
                v = v.w(row='M')
            if isinstance(v, V) and v.items is not None and v.kind in ('tuple', 'list'):
                its = tuple(fix(i) for i in v.items)
                if any(a is not b for a, b in zip(its, v.items)):
                    v = v.w(items=its)
            return v
        for f in st.frames:
            for k, v in f.env.items():
                f.env[k] = fix(v)

    def abstract_loop(self, s, st, it, once=False):
        is_for = it is not None
        loop = self.pos(s) + '|' + str(len(self.callstack))
        names = assigned_names(s.body)
        entry = st
        head = st.copy()
        for n in names:
            v = head.f.env.get(n)
            if v is not None and isinstance(v, V):
                head.f.env[n] = self.forget(v, T.mk('lphi', loop, n, v.sym))
        lp = {n: head.f.env[n].sym for n in names if n in head.f.env and isinstance(head.f.env[n], V)}
        cover = self.overwritten(s, it, head) if is_for else ()
        for n in cover:
            # every entry is assigned before anyone looks at it: what the array held before does not matter
            head.f.env[n] = head.f.env[n].w(deg='Z', tw=0)
        last = None
        done, brk = [], []
        cdeps = it.deps if is_for else E0
        prev = None
        for k in range(5):
            done, brk = [], []
            b = head.copy()
            cv = None
            if is_for:
                el = self.iter_elem(it, b, s, loop)
                try:
                    self.assign(s.target, el, b)
                except PathDead:
                    return [('raise', b, 'unpack')]
            else:
                try:
                    cv = self.eval(s.test, b)
                except PathDead as e:
                    return [('raise', b, e.why)]
                t = self.truth(cv, b)
                if t is False:
                    if k == 0:
                        return [('normal', entry, None)] if not s.orelse else self.exec_block(s.orelse, [entry])
                    break
                cdeps = cdeps | cv.deps
                if t is None:
                    self.assume(s.test, cv, b, True)
            outs = self.exec_block(s.body, [b])
            nxt = []
            for o in outs:
                if o[0] in ('normal', 'continue'):
                    nxt.append(o[1])
                elif o[0] == 'break':
                    brk.append(o[1])
                else:
                    done.append(o)
            if not nxt:
                last = None
                break
            nx = join_states(nxt) if len(nxt) > 1 else nxt[0]
            nx = nx.copy()
            if is_for:
                pass
            last = nx.copy()
            self.age(nx, loop)
            nh = join_states([head, nx], T.mk('loopj', loop), mb=False)
            for n, sy in lp.items():
                if n in nh.f.env and isinstance(nh.f.env[n], V):
                    nh.f.env[n] = nh.f.env[n].w(sym=sy)
            nh.facts = {kk: vv for kk, vv in nh.facts.items() if entry.facts.get(kk) == vv}
            for n in cover:
                x, y = nh.f.env.get(n), nx.f.env.get(n)
                if isinstance(x, V) and isinstance(y, V):
                    nh.f.env[n] = x.w(deg=y.deg, tw=y.tw)
            if k >= 3:
                self.widen(nh, head)
            ky = skey(nh)
            if ky == prev:
                head = nh
                break
            prev = ky
            head = nh
        exits = []
        infinite = (not is_for) and isinstance(s.test, ast.Constant) and bool(s.test.value)
        if not infinite:
            ex = last.copy() if once and last is not None else head.copy()
            if last is not None:
                for n in names:
                    if n in ex.f.env and isinstance(ex.f.env[n], V):
                        init = entry.f.env.get(n)
                        fin = last.f.env.get(n)
                        x = ex.f.env[n]
                        ex.f.env[n] = x.w(sym=T.mk('lout', loop, init.sym if isinstance(init, V) else -1,
                                                   fin.sym if isinstance(fin, V) else -1,
                                                   it.sym if is_for else (cv.sym if cv is not None else -1)),
                                          deps=x.deps | cdeps)
                        if x.kind == 'list' and x.items is None:
                            pass
            exits.append(ex)
        for b in brk:
            self.age(b, loop)
            for n in names:
                x = b.f.env.get(n)
                if isinstance(x, V):
                    b.f.env[n] = x.w(deps=x.deps | cdeps, sym=T.mk('lbrk', loop, x.sym))
        exits += brk
        if cdeps:
            for x in exits + brk:
                self.add_cdeps(x, [f.env for f in x.frames], entry.heap, cdeps)
        if brk and exits:
            exits = [join_states(exits, T.mk('loopj', loop), mb=False)]
        for e in exits:
            self.age(e, loop)
        if cdeps and done:
            done = [(k, s2, self.with_deps(val, cdeps).wex(pcdeps=val.ex('pcdeps', E0) | cdeps)
                     if k == 'return' else val) for k, s2, val in done]
            if any(d[0] == 'return' for d in done):
                for e in exits:
                    e.pcdeps = e.pcdeps | cdeps
        if exits and s.orelse:
            outs = self.exec_block(s.orelse, exits)
            return done + outs
        return done + [('normal', e, None) for e in exits]

    def overwritten(self, s, it, st):
        """Arrays of which the loop assigns every entry, in its own iteration, without reading them."""
        if it.kind != 'range' or not it.ex('start0') or it.ex('stop') is None or not isinstance(s.target, ast.Name):
            return ()
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Continue)):
                return ()
        i = s.target.id
        if i in assigned_names(s.body):
            return ()
        loads = {}
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                loads[n.id] = loads.get(n.id, 0) + 1

        def targets(b):
            """Names the block certainly assigns at the loop's index."""
            out = {}
            for x in b:
                ts = x.targets if isinstance(x, ast.Assign) else []
                ts = [e for t in ts for e in (t.elts if isinstance(t, ast.Tuple) else [t])]
                for t in ts:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        ix = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                        at = [k for k, e in enumerate(ix) if isinstance(e, ast.Name) and e.id == i]
                        full = [isinstance(e, ast.Slice) and e.lower is e.upper is e.step is None for e in ix]
                        if len(at) == 1 and sum(full) == len(ix) - 1:
                            out.setdefault(t.value.id, []).append((t, at[0]))
                if isinstance(x, ast.If) and x.orelse:
                    a, c = targets(x.body), targets(x.orelse)
                    for n in set(a) & set(c):
                        out.setdefault(n, []).extend(a[n] + c[n])
            return out
        res = []
        for n, ts in targets(s.body).items():
            v = st.f.env.get(n)
            if loads.get(n) != len(ts) or not isinstance(v, V) or v.kind != 'num' or v.shape is None or v.sp:
                continue
            if all(k < len(v.shape) and v.shape[k] == it.ex('stop') for _, k in ts):
                res.append(n)
                for t, k in ts:
                    self.whole[id(t)] = k
        return res

    def forget(self, v, sym):
        """Value at a loop head: facts that only held before the loop are dropped."""
        if v.kind == 'num' and v.const is not NOC:
            return v.w(sym=sym, const=NOC, poly=None)
        return v.w(sym=sym, poly=None)

    def widen(self, nh, head):
        for fa, fb in zip(nh.frames, head.frames):
            for k, v in fa.env.items():
                o = fb.env.get(k)
                if isinstance(v, V) and isinstance(o, V) and vkey(v) != vkey(o):
                    fa.env[k] = v.w(const=NOC, poly=None,
                                    shape=v.shape if v.shape == o.shape else None,
                                    deg=v.deg if v.deg == o.deg else jdeg(v.deg, o.deg),
                                    tw=v.tw if v.tw == o.tw else None,
                                    row=v.row if v.row == o.row else jrow(v.row, o.row))

    def x_While(self, s, st):
        if not isinstance(s.test, ast.Constant):
            outs = self.counted_while(s, st)
            if outs is not None:
                return outs
        return self.abstract_loop(s, st, None)

    def counted_while(self, s, st, most=4):
        """The outcomes of a loop whose condition is decided before each of a few iterations, else None."""
        cur, done = [st.copy()], []
        for k in range(most + 1):
            nxt = []
            for s1 in cur:
                try:
                    t = self.truth(self.eval(s.test, s1), s1)
                except PathDead:
                    return None
                if t is None or t is True and k == most:
                    return None
                if t is False:
                    done += self.exec_block(s.orelse, [s1]) if s.orelse else [('normal', s1, None)]
                    continue
                for o in self.exec_block(s.body, [s1]):
                    if o[0] in ('normal', 'continue'):
                        nxt.append(o[1])
                    else:
                        done.append(('normal', o[1], None) if o[0] == 'break' else o)
            cur = self.limit(nxt, s) if nxt else []
            if not cur:
                return done
        return None

    def x_Try(self, s, st):
        pre = st.copy()
        outs = self.exec_block(s.body, [st])
        raised = [o[1] for o in outs if o[0] == 'raise']
        normal = [o[1] for o in outs if o[0] == 'normal']
        rest = [o for o in outs if o[0] not in ('raise', 'normal')]
        can = any(isinstance(n, (ast.Call, ast.Subscript, ast.Import, ast.ImportFrom, ast.Attribute, ast.BinOp,
                                 ast.Assert, ast.Raise))
                  for b in s.body for n in ast.walk(b))
        if s.handlers and (can or raised):
            for h in s.handlers:
                hs = pre.copy()
                for r in raised + normal:
                    if len(r.frames) == len(hs.frames):
                        hs2 = join_states([hs, r], T.mk('exc', self.pos(s)))
                        hs = hs2
                hs.facts = dict(pre.facts)
                if h.type is not None:
                    try:
                        self.eval(h.type, hs)
                    except PathDead:
                        pass
                if h.name:
                    hs.f.env[h.name] = top(sym=T.mk('excval', self.pos(h)))
                hs.conds = hs.conds + (('except at line %d' % h.lineno, True),)
                o2 = self.exec_block(h.body, [hs])
                for o in o2:
                    if o[0] == 'normal':
                        rest.append(('normal', o[1], 'handler'))
                    else:
                        rest.append(o)
        elif raised:
            rest += [('raise', r, '') for r in raised]
        if normal:
            normal = [join_states(normal)] if len(normal) > CAP else normal
            if s.orelse:
                rest += self.exec_block(s.orelse, normal)
            else:
                rest += [('normal', n, None) for n in normal]
        if s.finalbody:
            out = []
            for k, s2, v in rest:
                f = self.exec_block(s.finalbody, [s2])
                for o in f:
                    out.append((k, o[1], v) if o[0] == 'normal' else o)
            rest = out
        return [(k, s2, None if k == 'normal' else v) for k, s2, v in rest]

    x_TryStar = x_Try

    def x_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            self.ev('with_enter', it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.exec_block(s.body, [st])

    def x_Match(self, s, st):
        v = self.eval(s.subject, st)
        rest = []
        cur = [st]
        outs = []
        for c in s.cases:
            nxt = []
            for s1 in cur:
                p = c.pattern
                t = None
                if isinstance(p, ast.MatchValue):
                    pv = self.eval(p.value, s1)
                    t = self.truth(self.compare_one(ast.Eq(), v, pv, p, s1), s1)
                elif isinstance(p, ast.MatchAs) and p.pattern is None:
                    t = True
                    if p.name:
                        s1.f.env[p.name] = v
                elif isinstance(p, ast.MatchOr):
                    ts = []
                    for q in p.patterns:
                        if isinstance(q, ast.MatchValue):
                            pv = self.eval(q.value, s1)
                            ts.append(self.truth(self.compare_one(ast.Eq(), v, pv, q, s1), s1))
                        else:
                            ts.append(None)
                    t = True if True in ts else (False if all(x is False for x in ts) else None)
                if c.guard is not None and t is True:
                    t = None
                if t is not False:
                    a = s1.copy()
                    outs += self.exec_block(c.body, [a])
                if t is not True:
                    nxt.append(s1)
            cur = nxt
            if not cur:
                break
        return outs + [('normal', x, None) for x in cur]

    # ------------------------------------------------------------ expressions
    def eval(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return top(sym=T.mk('expr', self.pos(n)) if hasattr(n, 'lineno') else None)
        k = self.nerr
        v = m(n, st)
        if self.nerr == k:
            self.okn.add(id(n))
        return v

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        return self.lookup(n.id, st, n)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Tuple(self, n, st):
        return self.seq(n, st, 'tuple')

    def e_List(self, n, st):
        return self.seq(n, st, 'list')

    def e_Set(self, n, st):
        vs = [self.eval(e, st) for e in n.elts]
        return V('set', deps=udeps(vs), roots=E0, elem=self.list_elem(tup(vs)), aid=new_aid(), items=tuple(vs),
                 sym=T.mk('set', *[v.sym for v in vs]))

    def seq(self, n, st, kind):
        out = []
        unk = None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                its = self.iter_items(v)
                if its is None:
                    unk = v if unk is None else joinv(unk, v)
                else:
                    out += its
            else:
                out.append(self.eval(e, st))
        if unk is not None:
            el = self.list_elem(tup(out), V('list', elem=self.iter_elem(unk, st, n, 'star'), sym=unk.sym))
            return V(kind, elem=el, deps=udeps(out) | unk.deps, roots=uroots(out) | unk.roots,
                     sym=T.mk(kind + '*', unk.sym, *[o.sym for o in out]), aid=new_aid() if kind == 'list' else None)
        return tup(out, kind)

    def e_Dict(self, n, st):
        d = {}
        deps, roots = E0, E0
        for k, x in zip(n.keys, n.values):
            v = self.eval(x, st)
            deps, roots = deps | v.deps, roots | v.roots
            if k is None:
                if v.kind == 'dict' and v.addr in st.heap:
                    d.update(st.heap[v.addr])
                else:
                    d['__other__'] = top(deps=v.deps, roots=v.roots)
                continue
            kv = self.eval(k, st)
            if kv.const is not NOC and not isinstance(kv.const, Other):
                d[kv.const] = v
            else:
                d['__other__'] = v
        return self.mkdict(st, d, deps, roots, self.pos(n))

    def mkdict(self, st, d, deps, roots, pos):
        addr = f'd{new_aid()}'
        st.heap[addr] = d
        return V('dict', addr=addr, deps=deps, roots=E0,
                 sym=T.mk('dict', pos, *[x for k, v in d.items() for x in (repr(k), v.sym)]))

    def e_JoinedStr(self, n, st):
        vs = []
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                vs.append(self.eval(x.value, st))
        return V('str', deps=udeps(vs), sym=T.mk('fstr', self.pos(n), *[v.sym for v in vs]))

    def e_FormattedValue(self, n, st):
        return self.eval(n.value, st)

    def e_Lambda(self, n, st):
        return self.make_func(n, st)

    def e_IfExp(self, n, st):
        c = self.eval(n.test, st)
        t = self.truth(c, st)
        if t is True:
            return self.eval(n.body, st)
        if t is False:
            return self.eval(n.orelse, st)
        if c.tw == 'T' or c.deg == 'X':
            self.ev('cond_bad', n, st, tw=c.tw, deg=c.deg)
        a = st.copy()
        b = st.copy()
        self.assume(n.test, c, a, True)
        self.assume(n.test, c, b, False)
        x = y = None
        try:
            x = self.eval(n.body, a)
        except PathDead:
            pass
        try:
            y = self.eval(n.orelse, b)
        except PathDead:
            pass
        if x is None and y is None:
            raise PathDead('ifexp')
        r = x if y is None else y if x is None else joinv(x, y, c.sym)
        st.become(join_states([q for q, z in ((a, x), (b, y)) if z is not None], c.sym))
        return self.with_deps(r, c.deps) if c.deps else r

    def e_BoolOp(self, n, st):
        conj = isinstance(n.op, ast.And)
        vals = []
        sub = st
        for x in n.values:
            v = self.eval(x, sub)
            t = self.truth(v, sub)
            if t is (not conj):
                if not vals:
                    return v
                vals.append(v)
                known = const(not conj)
                if all(o.kind == 'num' or o.kind == 'top' for o in vals) and v.const is not NOC:
                    return known.w(deps=udeps(vals)) if isinstance(v.const, bool) else v
                break
            if t is conj and len(vals) + 1 < len(n.values) and x is not n.values[-1]:
                if v.deps:
                    vals.append(v)
                if sub is not st:
                    pass
                continue
            vals.append(v)
            if sub is st:
                sub = st.copy()
            self.assume(x, v, sub, conj)
        # value-preserving `a or b` idiom
        real = [v for v in vals]
        if len(real) == 1:
            return real[0]
        r = real[-1]
        tv = [self.truth(v, st) for v in real]
        c = NOC
        if all(t is conj for t in tv):
            return real[-1]
        sym = T.mk('and' if conj else 'or', *[v.sym for v in real])
        isb = all(v.dt == 'b' or v.kind in ('num',) and v.shape == () for v in real)
        tw = 0 if all(v.tw == 0 for v in real) else ('T' if any(v.tw == 'T' for v in real) else None)
        deg = Fraction(0) if all(v.deg in (0, 'Z') for v in real) else ('X' if any(v.deg == 'X' for v in real) else None)
        row = 'I'
        for v in real:
            row = jrow(row, v.row)
        if isb:
            return V('num', shape=(), dt='b', deg=deg, tw=tw, row=row, deps=udeps(real), sym=sym)
        j = real[0]
        for v in real[1:]:
            j = joinv(j, v)
        return j.w(sym=sym, deps=udeps(real))

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            t = self.truth(v, st)
            if t is not None:
                return const(not t).w(deps=v.deps)
            s = T.rev[v.sym]
            return V('num', shape=(), dt='b', deg=v.deg if v.deg == 'X' else Fraction(0), tw=v.tw if v.tw in (0, 'T') else None,
                     row=v.row, deps=v.deps, sym=s[1] if s[0] == 'not' else T.mk('not', v.sym))
        return self.np.unary(self, st, n.op, v, n)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(n.op, a, b, n, st)

    def binop(self, op, a, b, n, st):
        return self.np.binop(self, st, op, a, b, n)

    def e_Compare(self, n, st):
        l = self.eval(n.left, st)
        res = []
        for op, r in zip(n.ops, n.comparators):
            rv = self.eval(r, st)
            res.append(self.compare_one(op, l, rv, n, st))
            l = rv
        if len(res) == 1:
            return res[0]
        ts = [self.truth(x, st) for x in res]
        if False in ts:
            return const(False)
        if all(ts):
            return const(True)
        return V('num', shape=(), dt='b', deg='X' if any(x.deg == 'X' for x in res) else Fraction(0),
                 tw='T' if any(x.tw == 'T' for x in res) else (0 if all(x.tw == 0 for x in res) else None),
                 deps=udeps(res), sym=T.mk('and', *[x.sym for x in res]))

    def compare_one(self, op, a, b, n, st):
        neg = False
        bare = dict(shape=(), dt='b', deg=Fraction(0), tw=0, deps=a.deps | b.deps,
                    row=jrow(a.row, b.row))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (a.kind == 'none' or b.kind == 'none'):
            x, y = (a, b) if b.kind == 'none' else (b, a)
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if x.kind == 'none':
                return const(not neg)
            if x.kind != 'top' and not x.ex('maybe_none') or notnone(x):
                return const(neg)
            s = T.mk('isnone', x.sym)
            t = st.facts.get(s)
            if t is not None:
                return const(t != neg).w(deps=bare['deps'])
            return V('num', sym=T.mk('not', s) if neg else s, **bare)
        if 'none' in (a.kind, b.kind) and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            self.ev('none_arith', n, st)
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            cont = None
            if b.kind in ('tuple', 'list', 'set') and b.items is not None:
                cont = list(b.items)
            elif b.kind == 'dict' and b.addr in st.heap and '__other__' not in st.heap[b.addr]:
                cont = [const(k) for k in st.heap[b.addr] if k != '__other__']
            if cont is not None:
                if a.const is not NOC or a.kind == 'none':
                    unk = False
                    for x in cont:
                        t = self.truth(self.compare_one(ast.Eq(), a, x, n, st), st)
                        if t is True:
                            return const(not neg).w(deps=bare['deps'])
                        if t is None:
                            unk = True
                    if not unk:
                        return const(neg).w(deps=bare['deps'])
            s = T.mk('in', a.sym, b.sym)
            t = st.facts.get(s)
            if t is not None:
                return const(t != neg).w(deps=bare['deps'])
            return V('num', sym=T.mk('not', s) if neg else s, **bare)
        if a.const is not NOC and b.const is not NOC:
            if isinstance(a.const, Other) or isinstance(b.const, Other):
                same = a.const is b.const
                if isinstance(op, (ast.Eq, ast.Is)):
                    return const(same).w(deps=bare['deps'])
                if isinstance(op, (ast.NotEq, ast.IsNot)):
                    return const(not same).w(deps=bare['deps'])
                return V('num', sym=T.fresh('cmp'), **bare)
            try:
                r = {'Eq': lambda x, y: x == y, 'NotEq': lambda x, y: x != y, 'Lt': lambda x, y: x < y,
                     'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y,
                     'Is': lambda x, y: x is y or (x == y and type(x) is type(y)),
                     'IsNot': lambda x, y: not (x is y or (x == y and type(x) is type(y)))}[type(op).__name__](a.const, b.const)
                return const(bool(r)).w(deps=bare['deps'])
            except Exception:
                pass
        for x, y in ((a, b), (b, a)):
            if isinstance(x.const, Other) and (y.kind in ('tuple', 'num', 'list', 'func', 'cls', 'inst') or y.ex('otherthan')):
                if isinstance(op, (ast.Eq, ast.Is)):
                    return const(False).w(deps=bare['deps'])
                if isinstance(op, (ast.NotEq, ast.IsNot)):
                    return const(True).w(deps=bare['deps'])
        if a.kind == 'str' and b.kind == 'num' or a.kind == 'num' and b.kind == 'str':
            if isinstance(op, (ast.Eq, ast.NotEq)):
                return const(isinstance(op, ast.NotEq)).w(deps=bare['deps'])
        return self.np.compare(self, st, op, a, b, n)

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_Slice(self, n, st):
        ps = [self.eval(x, st) if x is not None else const(None) for x in (n.lower, n.upper, n.step)]
        return V('slice', items=tuple(ps), deps=udeps(ps), sym=T.mk('slice', *[p.sym for p in ps]))

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        i = self.eval(n.slice, st)
        return self.subscript(st, o, i, n)

    def subscript(self, st, o, i, n):
        if isinstance(o.const, Other) and i.kind == 'slice':
            return o
        if o.kind == 'none':
            self.ev('none_item', n, st, what='an element of None')
            return top(deps=o.deps | i.deps, sym=T.mk('item', o.sym, i.sym))
        if self.np.omitted(st, o):
            self.ev('none_item', n, st, what='an element of None', open=True)
        if o.kind == 'dict':
            d = st.heap.get(o.addr, {})
            if i.const is not NOC and not isinstance(i.const, Other):
                try:
                    if i.const in d:
                        return d[i.const].w(deps=d[i.const].deps | i.deps)
                except TypeError:
                    pass
                if '__other__' in d or o.addr is None or o.roots:
                    return top(deps=o.deps | i.deps, roots=o.roots, sym=T.mk('item', o.sym, i.sym))
                self.ev('keyerror', n, st)
                raise PathDead('KeyError')
            if isinstance(i.const, Other) and o.addr is not None and '__other__' not in d:
                self.ev('keyerror', n, st)
                raise PathDead('KeyError')
            el = None
            for k, v in d.items():
                el = v if el is None else joinv(el, v)
            if el is not None and o.addr is not None:
                return el.w(deps=el.deps | i.deps | o.deps, roots=el.roots | o.roots, sym=T.mk('item', o.sym, i.sym))
            return top(deps=o.deps | i.deps, roots=o.roots, sym=T.mk('item', o.sym, i.sym))
        if o.kind in ('tuple', 'list') and (isinstance(i.const, int) and not isinstance(i.const, bool)):
            if o.items is not None:
                k = i.const
                if -len(o.items) <= k < len(o.items):
                    r = o.items[k]
                    return r
                self.ev('index_error', n, st)
                raise PathDead('IndexError')
            if o.elem is not None:
                return o.elem.w(sym=T.mk('item', o.sym, i.sym))
        if o.kind in ('tuple', 'list', 'range') and i.kind == 'slice':
            if o.items is not None and all(p.const is not NOC and (p.const is None or isinstance(p.const, int)) for p in i.items):
                sl = slice(*[p.const for p in i.items])
                return tup(o.items[sl], 'list' if o.kind == 'list' else 'tuple')
            return V(o.kind, elem=self.list_elem(o), deps=o.deps | i.deps, roots=o.roots,
                     sym=T.mk('item', o.sym, i.sym), aid=new_aid() if o.kind == 'list' else None)
        if o.kind in ('tuple', 'list', 'range'):
            el = self.list_elem(o)
            if el is not None:
                return el.w(sym=T.mk('item', o.sym, i.sym), deps=el.deps | i.deps | o.deps, const=NOC if o.items is None or len(o.items) > 1 else el.const,
                            poly=None)
            return top(deps=o.deps | i.deps, roots=o.roots, sym=T.mk('item', o.sym, i.sym))
        if o.kind == 'ext':
            return V('ext', path=o.path + '[]', sym=T.mk('item', o.sym, i.sym), deps=i.deps)
        if o.kind == 'str':
            return V('str', deps=o.deps | i.deps, sym=T.mk('item', o.sym, i.sym))
        if o.kind == 'inst':
            m = self.find_method(o, '__getitem__', st)
            if m is not None:
                return self.call(st, m, [o, i], {}, n)
        if o.ex('native'):
            k = i.const if isinstance(i.const, int) else None
            return top(deps=o.deps | i.deps, sym=T.mk('item', o.sym, i.sym),
                       extra={'native_item': (o.ex('native'), k, None)})
        return self.np.getitem(self, st, o, i, n)

    def e_Attribute(self, n, st):
        o = self.eval(n.value, st)
        return self.getattr(st, o, n.attr, n)

    def find_method(self, o, name, st):
        c = o.extra.get('cls') if o.extra else None
        seen = 0
        while c is not None and seen < 5:
            a = c.ex('attrs', {})
            if name in a:
                return a[name]
            bs = [b for b in c.ex('bases', []) if b.kind == 'cls']
            c = bs[0] if bs else None
            seen += 1
        return None

    def getattr(self, st, o, attr, n):
        if o.kind == 'mod':
            v = self.mod_attr(o.path, attr)
            if v is None:
                self.ev('noattr', n, st, what=f'{o.path} has no attribute {attr}')
            return v if v is not None else top(sym=T.mk('modattr', o.path, attr))
        if o.kind == 'ext':
            p = f'{o.path}.{attr}'
            if p in ('os.environ', 'sys.platform', 'sys.argv', 'os.name', 'sys.version', 'sys.version_info', 'sys.flags', 'sys.path', 'sys.modules',
                     'sys.executable'):
                return V('ext', path=p, sym=T.mk('ext', p), deps=frozenset(['<environment: %s>' % p]))
            return self.np.ext_const(p) or V('ext', path=p, sym=T.mk('ext', p))
        if o.kind == 'inst':
            d = st.heap.get(o.addr, {})
            if attr in d:
                v = d[attr]
                if o.roots and not (v.kind == 'num' and v.shape == ()):
                    v = v.w(roots=v.roots | o.roots)
                return v
            m = self.find_method(o, attr, st)
            if m is not None:
                if m.kind == 'func' and m.ex('prop'):
                    return self.call(st, m, [o], {}, n)
                if m.kind == 'func' and not m.ex('static'):
                    return V('method', fn=(o, m), sym=T.mk('method', o.sym, m.sym), path=m.path)
                return m
            if o.addr in st.heap and not d.get('__other__'):
                self.ev('noattr', n, st, what=f'{o.path} has no attribute {attr}')
            return top(deps=o.deps, roots=o.roots, sym=T.mk('attr', o.sym, attr))
        if o.kind == 'cls':
            a = o.ex('attrs', {})
            if attr in a:
                return a[attr]
            return top(sym=T.mk('attr', o.sym, attr))
        r = self.np.attribute(self, st, o, attr, n)
        if r is not None:
            return r
        return V('bmeth', path=attr, fn=(o,), sym=T.mk('attr', o.sym, attr), deps=o.deps, roots=o.roots)

    # ------------------------------------------------------------ comprehensions
    def comp(self, n, st, elts):
        """Evaluate a comprehension; returns (items or None, elem list, deps, filtered)."""
        self.fid += 1
        fr = Frame(self.fid, st.f.qual, st.f.mod, {}, (st.f.fid,) + st.f.parents, st.f.node, n)
        fr.closure = st.f.closure
        st.frames.append(fr)
        try:
            out = []
            info = {'abs': False, 'filtered': False, 'deps': E0, 'loops': [], 'isyms': []}
            self.comp_rec(n, st, elts, 0, out, info)
        finally:
            # states may have been replaced in place by `become`
            st.frames.pop()
        return out, info

    def comp_rec(self, n, st, elts, gi, out, info):
        if gi == len(n.generators):
            out.append([self.eval(e, st) for e in elts])
            return
        g = n.generators[gi]
        it = self.eval(g.iter, st)
        items = self.iter_items(it)
        loop = self.pos(n) + f'|c{gi}|{len(self.callstack)}'
        info['isyms'].append(it.sym)
        if items is None:
            info['abs'] = True
            info['deps'] = info['deps'] | it.deps
            info['loops'].append(loop)
            items = [self.iter_elem(it, st, n, loop)]
        for x in items:
            try:
                self.assign(g.target, x, st)
                ok = True
                for c in g.ifs:
                    cv = self.eval(c, st)
                    t = self.truth(cv, st)
                    info['deps'] = info['deps'] | cv.deps
                    if t is False:
                        ok = False
                    elif t is None:
                        info['filtered'] = True
                        info['abs'] = True
                    if cv.const is NOC:
                        info['isyms'].append(cv.sym)
                if ok:
                    self.comp_rec(n, st, elts, gi + 1, out, info)
            except PathDead:
                if not info['abs']:
                    raise

    def e_ListComp(self, n, st):
        out, info = self.comp(n, st, [n.elt])
        vals = [o[0] for o in out]
        if not info['abs']:
            return tup(vals, 'list').w(deps=udeps(vals) | info['deps'])
        el = self.list_elem(tup(vals)) if vals else None
        ex = None
        if el is not None and info['loops'] and not info['filtered'] and len(info['loops']) == 1 \
                and el.row == ('R', info['loops'][0]):
            ex = {'rowlist': True}
            el = el.w(row=el.row)
        if el is not None and info['filtered']:
            ex = dict(ex or {}, maybe0=True)
        return V('list', elem=el, deps=info['deps'] | (el.deps if el else E0), roots=el.roots if el else E0,
                 sym=T.mk('listcomp', *[v.sym for v in vals], *info['isyms']), aid=new_aid(), extra=ex)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        v = self.e_ListComp(n, st)
        return V('set', elem=self.list_elem(v), deps=v.deps, sym=T.mk('set', v.sym), aid=new_aid())

    def e_DictComp(self, n, st):
        out, info = self.comp(n, st, [n.key, n.value])
        d = {}
        for k, v in out:
            if not info['abs'] and k.const is not NOC and not isinstance(k.const, Other):
                d[k.const] = v
            else:
                d['__other__'] = v if '__other__' not in d else joinv(d['__other__'], v)
        return self.mkdict(st, d, info['deps'] | udeps([v for _, v in out]), E0, self.pos(n))

    def e_Yield(self, n, st):
        if n.value is not None:
            self.eval(n.value, st)
        return top()

    e_YieldFrom = e_Yield
    e_Await = e_Yield

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        f = self.eval(n.func, st)
        args, kw, star = [], {}, False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                its = self.iter_items(v)
                if its is None:
                    star = True
                    args.append(v)
                else:
                    args += its
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if v.kind == 'dict' and v.addr in st.heap and '__other__' not in st.heap[v.addr]:
                    for kk, vv in st.heap[v.addr].items():
                        kw[kk] = vv
                else:
                    star = True
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call(st, f, args, kw, n, star)

    def call(self, st, f, args, kw, n, star=False):
        k = f.kind
        if k == 'none':
            self.ev('none_item', n, st, what='None called as a function')
            return top(deps=udeps(list(args) + list(kw.values())), sym=T.mk('call', f.sym))
        if k == 'func':
            return self.call_user(st, f, args, kw, n, star)
        if k == 'method':
            o, m = f.fn
            return self.call_user(st, m, [o] + list(args), kw, n, star)
        if k == 'cls':
            return self.instantiate(st, f, args, kw, n, star)
        if k == 'ext':
            return self.np.ext_call(self, st, f.path, list(args), kw, n, star)
        if k == 'bmeth':
            return self.np.method_call(self, st, f.fn[0], f.path, list(args), kw, n, star)
        if k == 'inst':
            m = self.find_method(f, '__call__', st)
            if m is not None:
                return self.call_user(st, m, [f] + list(args), kw, n, star)
        vs = list(args) + list(kw.values())
        self.ev('callback', n, st, name=ast.unparse(n.func)[:40] if isinstance(n, ast.Call) else '')
        for a in vs:
            self.ev_escape(a, n, st)
        return top(deps=f.deps | udeps(vs), sym=T.mk('call', f.sym, *[v.sym for v in vs]))

    def ev_escape(self, a, n, st):
        pass

    def instantiate(self, st, c, args, kw, n, star):
        self.calls_seen.add(c.path)
        addr = f'o{new_aid()}'
        st.heap[addr] = {}
        vs = list(args) + list(kw.values())
        o = V('inst', addr=addr, extra={'cls': c}, sym=T.mk('new', c.sym, *[v.sym for v in vs]), deps=udeps(vs))
        init = self.find_method(o, '__init__', st)
        if init is not None and init.kind == 'func':
            self.call_user(st, init, [o] + list(args), kw, n, star)
        elif any(ast.unparse(d).split('(')[0].endswith('dataclass') for d in c.fn[1].decorator_list):
            d = {}
            names = [s.target.id for s in c.fn[1].body if isinstance(s, ast.AnnAssign)]
            for nm, v in zip(names, args):
                d[nm] = v
            d.update(kw)
            st.heap[addr] = d
        return o

    def bind(self, st, f, args, kw, n, star):
        node = f.fn[1]
        a = node.args
        env = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        rest = []
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None and not star:
            self.ev('bad_call', n, st, callee=f.path, why='too many arguments')
            raise PathDead('TypeError')
        extra = {}
        kwo = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k == '**':
                continue
            if k in pos or k in kwo:
                if k in env:
                    self.ev('bad_call', n, st, callee=f.path, why=f'multiple values for {k}')
                    raise PathDead('TypeError')
                env[k] = v
            else:
                extra[k] = v
        if extra and a.kwarg is None:
            self.ev('bad_call', n, st, callee=f.path, why=f'unexpected keyword {sorted(extra)}')
            raise PathDead('TypeError')
        given = set(env)
        for p in pos + kwo:
            if p not in env:
                d = f.ex('defaults', {})
                if p in d:
                    env[p] = d[p]
                elif star:
                    env[p] = top(deps=udeps(list(args) + list(kw.values())))
                else:
                    self.ev('bad_call', n, st, callee=f.path, why=f'missing argument {p}')
                    raise PathDead('TypeError')
        if a.vararg:
            env[a.vararg.arg] = tup(rest)
        if a.kwarg:
            env[a.kwarg.arg] = self.mkdict(st, dict(extra), udeps(extra.values()), E0, 'kw')
        return env, given

    def call_user(self, st, f, args, kw, n, star=False):
        mod, node = f.fn
        path = f.path
        self.calls_seen.add(path)
        vs = list(args) + list(kw.values())
        hook = self.opts.get('opaque')
        if hook and path in hook:
            return hook[path](self, st, args, kw, n)
        if self.callstack.count(path) >= 2 or len(self.callstack) > DEPTH:
            return top(deps=udeps(vs), roots=uroots(vs), sym=T.mk('rec', path, *[v.sym for v in vs]))
        env, given = self.bind(st, f, args, kw, n, star)
        self.ev('user_call', n, st, callee=path)
        cb = self.opts.get('on_call')
        if cb:
            cb(self, st, path, env, n)
        for k in list(env):
            if isinstance(env[k], V) and env[k].mb:
                env[k] = env[k].w(mb=False)
        self.fid += 1
        fr = Frame(self.fid, path, mod, env, tuple(f.ex('parents', ())), node, n)
        if f.ex('snap') is not None:
            fr.closure = f.ex('snap')
        saved_pc, saved_conds, saved_facts = st.pcdeps, st.conds, st.facts
        st.pcdeps = E0
        st.frames.append(fr)
        self.callstack.append(path)
        self.entered.add(path)
        try:
            if isinstance(node, ast.Lambda):
                rv = self.eval(node.body, st)
                rets = [(st, rv)]
            else:
                outs = self.exec_block(node.body, [st])
                rets = []
                for k, s2, v in outs:
                    if k == 'return':
                        rets.append((s2, v))
                    elif k == 'normal':
                        rv = const(None)
                        rets.append((s2, rv))
            if not rets:
                raise PathDead(f'{path} raises')
            depth = len(self.callstack)
            val = rets[0][1]
            for s2, v in rets[1:]:
                val = joinv(val, v, T.mk('ret', path))
            out = join_states([s for s, _ in rets], T.mk('ret', path)) if len(rets) > 1 else rets[0][0]
        finally:
            self.callstack.pop()
            if st.frames and st.frames[-1] is fr:
                st.frames.pop()
        if out is not st:
            if out.frames and out.frames[-1].fid == fr.fid:
                out.frames.pop()
            st.become(out)
        elif st.frames and st.frames[-1].fid == fr.fid:
            st.frames.pop()
        st.pcdeps = saved_pc
        st.conds = saved_conds
        if len(rets) > 1:
            st.facts = {k: v for k, v in st.facts.items()}
        if val.extra and 'pcdeps' in val.extra:
            e = dict(val.extra)
            e.pop('pcdeps')
            val = val.w(extra=e or None)
        val = val.w(mb=False) if val.mb else val
        return val

    # ------------------------------------------------------------ entry
    def run(self, target, args, setup=None):
        """Analyse one entry function. -> list of (kind, state, value)."""
        mod, node = target
        path = getattr(node, '_qual', node.name)
        st = State()
        heap = getattr(self, 'mod_heap', None)
        env = self.module_env(mod.name)
        st.heap = dict(getattr(self, 'mod_heap', {}) or {})
        fv = env.get(node.name) if env else None
        if fv is None or fv.kind != 'func' or fv.fn[1] is not node:
            self.fid += 1
            tmp = State()
            tmp.frames.append(Frame(self.fid, f'{mod.name}:<module>', mod, env or {}, (), mod.tree, None))
            fv = self.make_func(node, tmp)
            e = dict(fv.extra)
            e['parents'], e['snap'] = (), None
            fv = fv.w(extra=e)
        self.fid += 1
        base = Frame(self.fid, path + '<entry>', mod, {}, (), mod.tree, None)
        st.frames.append(base)
        if setup:
            args = setup(self, st, args)
        fenv = {}
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg in args:
                fenv[p.arg] = args[p.arg]
            elif p.arg in fv.ex('defaults', {}):
                fenv[p.arg] = fv.ex('defaults')[p.arg]
            else:
                fenv[p.arg] = top(deps=frozenset([p.arg]), roots=frozenset([p.arg]), sym=T.mk('param', p.arg))
        if a.vararg:
            fenv[a.vararg.arg] = top()
        if a.kwarg:
            fenv[a.kwarg.arg] = top()
        self.fid += 1
        fr = Frame(self.fid, path, mod, fenv, (), node, None)
        st.frames.append(fr)
        self.callstack.append(path)
        self.entered.add(path)
        try:
            outs = self.exec_block(node.body, [st])
        finally:
            self.callstack.pop()
        res = []
        for k, s2, v in outs:
            if k == 'normal':
                res.append(('return', s2, const(None).w(deps=s2.pcdeps)))
            else:
                res.append((k, s2, v))
        return res


def jdeg_store(a, b):
    """Degree of a container after storing a value of degree b into it."""
    if a == 'H' or b == 'H':
        return 'H'
    if isinstance(a, Fraction) and isinstance(b, Fraction) and a != b:
        return 'H'
    return jdeg(a, b)
