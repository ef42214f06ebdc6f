"""C01 inputs untouched, C02 no hidden state, C03 explicit randomness, C06 silence, C20 file effects."""
import ast
from ..drive import node_params, VARIANTS
from ..engine import sweep
from ..project import AnalysisBroken
from ..values import const, V

# objects documented to be updated in place by the call
IN_PLACE = {('reach_for_the_spheres_iteration', 'state')}


def qn(e):
    return e.qual.split(':')[-1] if ':' in e.qual else e.qual


def site(e):
    return e.mod.rel if e.mod else '', getattr(e.node, 'lineno', 0), e.qual.replace(':', '.')


# ------------------------------------------------------------------ C01
def c01(proj, res, tier):
    def f(pr, r):
        ps = set(node_params(r.node))
        out = []
        for e in r.events:
            if e.kind == 'mutate':
                for root in e.info['roots']:
                    if root in ps:
                        out.append((root, e.info['how']) + site(e))
        return {'viol': out, 'params': len([1 for k, t in r.cfg.params]), 'calls': len(r.I.calls_seen),
                'funcs': sorted(r.I.calls_seen)}
    funcs = set()
    for c, v, d in sweep(proj, f, res=res):
        res.count('rule_instances', d['params'])
        funcs |= set(d['funcs'])
        for root, how, file, line, fn in d['viol']:
            if (c.name, root) in IN_PLACE:
                continue
            res.add(f'C01|{c.name}|{root}|{fn}', f'{how} writes into memory that may belong to argument "{root}" of '
                    f'gpytoolbox.{c.name} (configuration {c.id}/{v})', file, line, fn)
    res.cov['functions_walked'] = len(funcs)
    res.samples = sorted(funcs)[:8]
    if res.cov['functions_walked'] < 120:
        raise AnalysisBroken('too few functions reached: %d' % len(funcs))
    res.assumptions.append('arguments are NumPy arrays, SciPy sparse matrices, lists or scalars as documented; library calls '
                           'write only to the operands the transfer functions name; native code does not write its inputs')


# ------------------------------------------------------------------ C02
def c02(proj, res, tier):
    def f(pr, r):
        out = []
        for e in r.events:
            if e.kind == 'mutate':
                for root in e.info['roots']:
                    if root.startswith(('global:', 'default:')):
                        out.append((root, e.info['how']) + site(e))
            elif e.kind == 'global_write':
                out.append((e.info['name'], 'assignment') + site(e))
            elif e.kind == 'cache_decorator':
                out.append((e.info['name'], 'caching decorator') + site(e))
        return {'viol': out, 'funcs': sorted(r.I.calls_seen), 'n': len(r.returns)}
    funcs = set()
    for c, v, d in sweep(proj, f, res=res):
        res.count('rule_instances')
        funcs |= set(d['funcs'])
        for root, how, file, line, fn in d['viol']:
            res.add(f'C02|{fn}|{root}', f'{how} stores into {root}, which outlives the call (reached from gpytoolbox.{c.name}, '
                    f'configuration {c.id}/{v})', file, line, fn)
    res.cov['functions_walked'] = len(funcs)
    if len(funcs) < 120:
        raise AnalysisBroken('too few functions reached: %d' % len(funcs))
    # syntactic backstop: `global`/`nonlocal`-style stores in functions the configurations do not reach
    for q, (m, node) in sorted(proj.functions.items()):
        res.count('functions_scanned')
        g = {n for s in ast.walk(node) if isinstance(s, ast.Global) for n in s.names}
        if not g:
            continue
        for s in ast.walk(node):
            if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)) and s.id in g:
                nm = f'{m.name}.{s.id}'
                res.add(f'C02|{q.replace(":", ".")}|{nm}', f'global statement: assignment stores into {nm}, which outlives '
                        'the call', m.rel, s.lineno, q.replace(':', '.'))


# ------------------------------------------------------------------ C03
def modname(rel):
    return rel.replace('src/', '').replace('.py', '').replace('/', '.')


def c03(proj, res, tier):
    """Provenance of every generator that is drawn from."""
    def f(pr, r):
        sn = {k for k, t in r.cfg.params if t.lstrip('?') == 'rng' or k in ('seed', 'rng_seed')}
        given = sn and (r.variant == 'full' or any(t == 'rng' for _, t in r.cfg.params))
        out, n = [], 0
        for e in r.events:
            if qn(e) == '<module>':
                continue
            if e.kind == 'global_rng':
                n += 1
                out.append(('global ' + e.info['name'].replace('numpy.random.', ''), e.info['name'] + ' uses the process-wide NumPy generator') + site(e))
            elif e.kind == 'rng_new':
                n += 1
                if not e.info['seeded'] and (given or not sn):
                    out.append(('entropy', 'generator seeded from operating-system entropy') + site(e))
                elif e.info['seeded'] and given and not set(e.info['deps']) & sn:
                    out.append(('ignored', f'generator whose seed does not come from the supplied {sorted(sn)[0]}') + site(e))
            elif e.kind == 'rng_draw':
                n += 1
                pv = e.info['rng']
                if pv == 'unseeded' and (given or not sn):
                    out.append(('hidden', 'draw from a generator seeded from operating-system entropy') + site(e))
                elif pv == 'seeded' and given and not set(e.info['deps']) & sn:
                    out.append(('ignored', f'draw from a generator unrelated to the supplied {sorted(sn)[0]}') + site(e))
        return {'viol': out, 'draws': n, 'seeded': bool(sn)}

    tot, fns = 0, set()
    for c, v, d in sweep(proj, f, res=res):
        res.count('rule_instances')
        tot += d['draws']
        if d['draws']:
            fns.add(c.name)
        for kind, what, file, line, fn in d['viol']:
            res.add(f'C03|{modname(file)}|{kind}', f'{what} (reached from gpytoolbox.{c.name}, configuration {c.id}/{v})', file, line, fn)
    res.cov['random_effect_sites_seen'] = tot
    res.cov['functions_with_random_effects'] = sorted(fns)
    if not {'random_points_on_mesh', 'metropolis_hastings'} <= fns:
        raise AnalysisBroken('the random draws of the sampling functions were not found')
    # functions the configurations do not reach
    for q, (m, node) in sorted(proj.functions.items()):
        for s in ast.walk(node):
            if isinstance(s, ast.Attribute) and isinstance(s.value, ast.Attribute) and s.value.attr == 'random' \
                    and isinstance(s.value.value, ast.Name) and s.value.value.id in ('np', 'numpy') \
                    and s.attr not in ('default_rng', 'Generator', 'RandomState', 'SeedSequence', 'PCG64', 'BitGenerator'):
                res.count('syntactic_sites')
                fn = q.replace(':', '.')
                res.add(f'C03|{modname(m.rel)}|global {s.attr}', f'numpy.random.{s.attr} uses the process-wide NumPy generator', m.rel, s.lineno, fn)


# ------------------------------------------------------------------ C06
def c06(proj, res, tier):
    flags = ('verbose',)

    def f(pr, r):
        out = [('print',) + site(e) for e in r.events if e.kind == 'print']
        return {'viol': out, 'verb': any(k in flags for k, _ in r.cfg.params)}
    import sa.drive as drive
    from ..engine import pmap
    cfgs = drive.configs()
    byi = {c.i: c for c in cfgs}

    def job(pr, j):
        c = byi[j[0]]
        ov = {}
        if j[1] != 'base':
            ov = {k: const(False) for k, _ in c.params if k in flags}
        r = drive.run(pr, c, j[1], override=ov)
        return f(pr, r)
    jobs = [(c.i, v) for c in cfgs for v in VARIANTS]
    verb = set()
    for (ci, v), st, d in pmap(proj, job, jobs):
        c = byi[ci]
        if st != 'ok':
            res.unanalysed.append(f'{c.id}/{v}: {d}')
            continue
        res.count('rule_instances')
        if d['verb']:
            verb.add(c.name)
        for how, file, line, fn in d['viol']:
            res.add(f'C06|{fn}', f'prints although verbose output was not requested (reached from gpytoolbox.{c.name}, '
                    f'configuration {c.id}/{v})', file, line, fn)
    res.cov['functions_with_verbose_flag'] = sorted(verb)
    if len(verb) < 5:
        raise AnalysisBroken('verbose flags vanished')
    if res.cov.get('rule_instances', 0) < 0.8 * len(jobs):
        raise AnalysisBroken('too many configurations could not be analysed')
    res.assumptions.append('output written by native code or third-party solvers is not visible to the analysis')
