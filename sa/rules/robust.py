"""C21 no internal errors, C22 integer coordinates."""
import ast
from .. import drive
from ..engine import pmap, sweep
from ..interp import ERRORS
from ..project import AnalysisBroken
from ..values import const
from ..cpp import Cpp
from .native import element_type, hook_for
from .options import NEEDS, cfg_jobs, option_values

WHAT = {'unbound': 'a name that is not bound', 'bad_call': 'a call that does not fit the signature of the callee',
        'index_error': 'an index outside the array', 'shape_mismatch': 'arrays of incompatible sizes', 'keyerror': 'a missing dictionary key',
        'none_arith': 'arithmetic or ordering with None', 'none_attr': 'an attribute of None', 'none_item': 'None used as a container or function',
        'unpack_mismatch': 'unpacking a different number of values', 'len_of_scalar': 'the length of a scalar',
        'shape_generic': 'arrays whose sizes are unrelated', 'noattr': 'an attribute that does not exist'}


def optional_imports(mod):
    """Names bound by an import inside a try statement."""
    out = set()
    for t in ast.walk(mod.tree):
        if isinstance(t, ast.Try):
            for s in ast.walk(t):
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split('.')[0] for a in s.names}
    return out


# ------------------------------------------------------------------ C21
# arguments documented to be given together or not at all
TOGETHER = ('bb+bc', 'VB+FB')
# their optional arguments are varied all together only
MANY_OPTIONS = ('reach_for_the_spheres', 'reach_for_the_spheres_iteration', 'matryoshka')


def c21(proj, res, tier):
    def make(c):
        out = [(v, ()) for v in drive.VARIANTS]
        flags = [k for k, t in c.params if t == 'b']
        for k in flags:
            out.append(('base', ((k, True),)))
            out.append(('full', ((k, False),)))
            out.append(('full', ((k, True),)))
        if len(flags) > 1:
            out.append(('base', tuple((k, True) for k in flags)))
        opt = [k for k, t in c.params if t.startswith('?')]
        if len(opt) > 1 and c.name not in MANY_OPTIONS:
            for k in opt:
                k = next((g for g in TOGETHER if k in g.split('+')), k)
                out += [('with:' + k, ()), ('without:' + k, ())]
        for k, vals in option_values(c):
            need = tuple(NEEDS.get((c.name, k), {}).items())
            for x in vals:
                out.append(('base', need + ((k, x),)))
                out.append(('full', need + ((k, x),)))
        return out
    byi, jobs = cfg_jobs(make)

    def job(pr, j):
        c, v, ov = byi[j[0]], j[1], dict(j[2])
        r = drive.run(pr, c, v, override={k: const(x) for k, x in ov.items()})
        out = []
        for e in r.events:
            if e.kind not in ERRORS or id(e.node) in r.I.okn and not e.info.get('open') or e.qual.endswith('<module>'):
                continue
            if e.kind == 'unbound' and e.info['name'] in optional_imports(e.mod):
                continue
            d = e.info.get('why') or e.info.get('what') or e.info.get('name') or ''
            if e.kind in ('shape_mismatch', 'shape_generic'):
                d = f'{e.info.get("a")} {e.info.get("op")} {e.info.get("b")}'
            out.append((e.kind, str(d), e.mod.rel, e.node.lineno, e.qual.replace(':', '.')))
        return {'viol': sorted(set(out)), 'ok': len(r.I.okn), 'ret': len(r.returns), 'w': (r.mod.rel, r.node.lineno, c.name),
                'bud': any(e.kind == 'budget' for e in r.events)}
    n = 0
    for (ci, v, ov), st, d in pmap(proj, job, jobs):
        c = byi[ci]
        if st != 'ok':
            res.unanalysed.append(f'{c.id}/{v}: {d}')
            continue
        res.count('configurations_analysed')
        res.count('rule_instances', d['ok'])
        n += 1
        how = ' with ' + ', '.join(f'{k}={x!r}' for k, x in ov) if ov else ''
        for kind, what, file, line, fn in d['viol']:
            res.add(f'C21|{fn}|{kind}|{what[:60]}', f'{WHAT[kind]}{" (" + what + ")" if what else ""} on a path of gpytoolbox.{c.name} '
                    f'(configuration {c.id}/{v}{how})', file, line, fn)
        if not d['ret'] and not d['bud'] and ':' not in v:
            res.add(f'C21|{c.id}|rejected', f'every path of gpytoolbox.{c.name} ends in an exception for documented arguments '
                    f'(configuration {c.id}/{v}{how})', *d['w'])
    if n < 600:
        raise AnalysisBroken(f'only {n} configurations could be analysed')
    res.assumptions.append('only errors on every visit of an expression are reported: sizes that differ for some inputs only are not')


# ------------------------------------------------------------------ C22
def native_ints(cpp, e):
    """Integer arrays handed to a native parameter that refers to memory of real numbers."""
    nm = e.info['name']
    b = cpp.bindings.get(nm)
    if b is None or e.kind == 'native_method' and e.info['method'] not in b.methods:
        return 0, []
    ent = b.methods[e.info['method']] if e.kind == 'native_method' else b.init or (b.params, b.argnames)
    ps, an = ent[0], ent[1]
    if ps is None or isinstance(e.node, ast.Call) and any(isinstance(a, ast.Starred) for a in e.node.args):
        return 0, []
    args, kw = e.info['vals'][:2]
    placed = dict(enumerate(args))
    placed.update({an.index(k): a for k, a in kw.items() if an and k in an})
    out = []
    for i, a in placed.items():
        if i < len(ps) and element_type(ps[i][0]) in ('float64', 'float32') and a.kind == 'num' and not a.sp and a.dt in ('i', 'b') \
                and a.shape != ():
            out.append(f'argument {i + 1} ({ps[i][1]}) of {nm}')
    return len(placed), out


def c22(proj, res, tier):
    cpp = Cpp(proj.repo)
    rets = {nm: b.ret for nm, b in cpp.bindings.items() if b.ret}

    def f(pr, r):
        nat, nn = [], 0
        for e in r.events:
            if e.kind in ('native_call', 'native_method'):
                k, bad = native_ints(cpp, e)
                nn += k
                nat += [(x, e.mod.rel, e.node.lineno, e.qual.replace(':', '.')) for x in bad]
        out = [(str(e.info.get('why', 'item store')), e.mod.rel, e.node.lineno, e.qual.replace(':', '.')) for e in r.events
               if e.kind == 'int_store_float']
        ints = [k for k, t in r.cfg.params if t.lstrip('?')[:2] in ('p(', 'v(', 'a(', 'x(')]
        return {'viol': sorted(set(out)), 'n': len(ints), 'stores': r.I.nstores, 'nat': sorted(set(nat)), 'nn': nn}
    n = 0
    for c, v, d in sweep(proj, f, res=res, ints='pvxa', native=hook_for(rets)):
        res.count('rule_instances', d['stores'])
        res.count('native_arguments', d['nn'])
        for what, file, line, fn in d['nat']:
            res.add(f'C22|{fn}|native {what}', f'{what} refers to memory of real numbers and gets an integer array when the coordinates are '
                    f'integers (reached from gpytoolbox.{c.name}, configuration {c.id}/{v})', file, line, fn)
        n += bool(d['n'])
        for how, file, line, fn in d['viol']:
            res.add(f'C22|{fn}|{how}', f'{how} puts real numbers into an array that has an integer type when the coordinates are integers '
                    f'(reached from gpytoolbox.{c.name}, configuration {c.id}/{v})', file, line, fn)
    res.cov['configurations_with_integer_arguments'] = n
    if n < 200:
        raise AnalysisBroken('too few configurations have coordinate arguments')
