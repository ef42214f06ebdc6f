"""Builds abstract arguments from the declared configurations and runs the interpreter."""
import ast
import os
import re
import sys
import time
from fractions import Fraction
from .terms import T, Poly
from .values import V, Other, E0, const, tup, top, intv
from .project import Project, Module, AnalysisBroken
from .interp import Interp
from . import specs

sys.setrecursionlimit(20000)
TOK = re.compile(r'^([A-Za-z]+)(?:\(([^)]*)\))?(?:\^(-?\d+))?(~\w+)?$')


def parse_poly(s):
    """'2*n*m-3*n+1' -> Poly; '?' -> None."""
    s = s.strip()
    if s == '?':
        return None
    r = Poly()
    for sign, term in re.findall(r'([+-]?)([^+-]+)', s):
        p = Poly.c(1)
        for fct in term.split('*'):
            fct = fct.strip()
            p = p * (Poly.c(int(fct)) if fct.isdigit() else Poly.atom(fct))
        r = r + (-p if sign == '-' else p)
    return r


def split_params(s):
    out = []
    for t in s.split():
        k, v = t.split('=', 1)
        out.append((k, v))
    return out


class Cfg:
    def __init__(self, d, i):
        self.__dict__.update(d)
        self.i = i
        self.params = split_params(d['params'])
        self.id = d['name'] + (('/' + d['cfg']) if d['cfg'] else '')
        self.batchset = set((d['batch'] or '').split(',')) - {''}


def configs():
    return [Cfg(d, i) for i, d in enumerate(specs.CONFIGS)]


def base_facets(kind):
    return {'p': (Fraction(1), 'P'), 'v': (Fraction(1), 0), 'x': (Fraction(0), 0), 'i': (Fraction(0), 0),
            'a': (None, None), 'sp': (Fraction(0), 0), 'f': (Fraction(0), 0), 'c': (None, None)}[kind]


def facets(tok):
    m = TOK.match(tok)
    kind, dims, e, tw = m.groups()
    if kind == 'iv':
        return kind, dims, None, None
    d, w = base_facets(kind)
    if e is not None:
        d = Fraction(int(e))
        if w is None:
            w = 0
    if tw == '~P':
        w = 'P'
    elif tw == '~0':
        w = 0
    elif tw == '~u':
        w = None
    return kind, dims, d, w


def build(I, name, tok, variant, batch, ints=False):
    """Abstract argument value; None means: leave the default."""
    opt = tok.startswith('?')
    if opt:
        tok = tok[1:]
        if variant == 'base':
            return None
    deps = frozenset([name])
    sym = T.mk('param', name)
    if tok.startswith('='):
        lit = tok[1:]
        if lit in ('True', 'False', 'None'):
            return const({'True': True, 'False': False, 'None': None}[lit])
        try:
            return const(ast.literal_eval(lit))
        except Exception:
            return const(lit)
    if tok.startswith('e{'):
        if variant == 'base':
            return None
        if variant == 'other':
            return const(Other(name))
        v = V('str', sym=sym, deps=deps)
        if '=None' in tok and variant == 'open':
            v = v.w(kind='top', extra={'maybe_none': True})
        return v
    if tok == 'b':
        if variant == 'base':
            return None
        v = V('num', shape=(), dt='b', deg=Fraction(0), tw=0, row='I', sym=sym, deps=deps)
    elif tok == 'str':
        v = V('str', sym=sym, deps=deps)
    elif tok == 'fn':
        v = top(deps=deps, sym=sym, extra={'callable': True})
    elif tok == 'rng':
        v = top(deps=deps, sym=sym, roots=deps, extra={'rng': 'caller', 'notnone': True})
    elif tok == 'o':
        v = top(deps=deps, sym=sym, roots=deps)
    elif tok == 'N':
        return const(None)
    elif tok == 'k' or tok.startswith('k:'):
        if tok == 'k' and variant == 'base' and not opt:
            return 'maybe_default'
        a = tok[2:] or '#' + name
        v = V('num', shape=(), dt='i', deg=Fraction(0), tw=0, row='I', poly=Poly.atom(a), sym=sym, deps=deps)
    elif tok.startswith('L['):
        el = build(I, name, tok[2:-1], 'full', (), ints)
        v = V('list', elem=el.w(roots=deps, sym=T.mk('elt', sym)), deps=deps, roots=deps, sym=sym)
    else:
        kind, dims, d, w = facets(tok)
        if kind == 'iv':
            its = [intv(parse_poly(x), sym=T.mk('param', x), deps=deps) for x in dims.split(',')]
            v = I.np.to_array(I, None, tup(its, 'list'), None).w(roots=deps, sym=sym, deps=deps)
        else:
            shape = tuple(parse_poly(x) for x in dims.split(',')) if dims else ()
            tw = ('P', 1, ('v', -1)) if w == 'P' else w
            v = V('num', shape=shape, dt='i' if kind == 'i' or ints and kind in ints else 'c' if kind == 'c' else 'f', deg=d, tw=tw,
                  row=('A', 0) if name in batch else 'I', deps=deps, roots=deps if shape else E0, sym=sym,
                  sp=kind == 'sp')
            if kind == 'f' and variant == 'base' and not opt and d == 0:
                return 'maybe_default'
    if opt and variant == 'open':
        v = v.w(kind='top', extra={**(v.extra or {}), 'maybe_none': True})
    return v


def node_params(node):
    a = node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def defaulted(node):
    a = node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    out = set(pos[len(pos) - len(a.defaults):]) if a.defaults else set()
    out |= {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    return out


def target(proj, cfg):
    """-> (module, function node, signature node or None)."""
    if cfg.driver is None:
        return proj.func(cfg.name)
    if cfg.name not in proj.public:
        raise AnalysisBroken(f'public class {cfg.name} is no longer exported by gpytoolbox')
    mname = f'verif_driver_{cfg.i}'
    m = proj.modules.get(mname)
    if m is None:
        names = [k for k, _ in cfg.params]
        src = 'import gpytoolbox\n\ndef client(%s):\n%s\n' % (
            ', '.join(names), '\n'.join('    ' + l for l in cfg.driver.split('\n')))
        m = Module(mname, mname + '.py', 'client of ' + cfg.name, src)
        proj.modules[mname] = m
        m.tree.body[1]._qual = f'{mname}:client'
        proj.functions[f'{mname}:client'] = (m, m.tree.body[1])
    return m, m.tree.body[1]


class Run:
    pass


def variant_of(variant, k):
    """'with:k' gives only the optional argument k, 'without:k' all but that one."""
    how, _, one = variant.partition(':')
    return 'full' if how == ('with' if k in one.split('+') else 'without') else 'base' if one else variant


def run(proj, cfg, variant='base', override=None, track_rows=False, ints=False, **opts):
    """Interpret one configuration.  override: {param: V} replaces arguments."""
    m, node = target(proj, cfg)
    if track_rows and cfg.batchset:
        b = sorted(cfg.batchset)[0]
        tok = dict(cfg.params)[b]
        dims = TOK.match(tok).group(2)
        opts['batch'] = parse_poly(dims.split(',')[0])
    I = Interp(proj, **opts)
    have = node_params(node)
    dflt = defaulted(node)
    args = {}
    for k, tok in cfg.params:
        if k not in have:
            raise AnalysisBroken(f'{cfg.name}: documented parameter {k} is no longer accepted')
        v = build(I, k, tok, variant_of(variant, k), cfg.batchset if track_rows else (), ints)
        if v is None and cfg.driver is not None:
            v = const(None) if not tok == 'b' else const(False)
        if isinstance(v, str):
            v = None if k in dflt else build(I, k, tok, 'full', (), ints)
        if v is not None:
            args[k] = v
    if override:
        for k, v in override.items():
            args[k] = v
    r = Run()
    r.I, r.cfg, r.variant, r.node, r.mod = I, cfg, variant, node, m
    t = time.time()
    r.outs = I.run((m, node), args)
    r.dt = time.time() - t
    r.returns = [(s, v) for k, s, v in r.outs if k == 'return']
    r.raises = [s for k, s, v in r.outs if k == 'raise']
    r.events = I.events
    return r


def outputs(v, n=None):
    """Flatten a returned value into the list of results (a list counts as several results when n > 1 are documented)."""
    if (v.kind == 'tuple' or v.kind == 'list' and n and n > 1) and v.items is not None:
        return list(v.items)
    return [v]


VARIANTS = ('base', 'open', 'full')
