"""C08 error codes, C14 extrinsic = intrinsic, C16 verbosity, C20 files, C23 sharing, C24 hidden inputs."""
import ast
import os
import re
from .. import drive
from ..drive import VARIANTS, outputs, node_params
from ..engine import pmap, sweep
from ..project import AnalysisBroken
from ..terms import T
from ..npcore import covers
from ..values import V, const, tup, top, udeps
from ..cpp import strip_comments, balanced
from .effects import site
from .options import cfg_jobs
from .facets import _maxima


def parts(o, d=0, top_only=False):
    """A result and everything it contains."""
    yield o
    if d > 3:
        return
    for x in list(o.items or ()) + ([o.elem] if o.elem is not None else []):
        yield from parts(x, d + 1)


def heap_parts(o, st):
    yield from parts(o)
    if o.kind in ('dict', 'inst') and o.addr is not None and st is not None:
        for v in st.heap.get(o.addr, {}).values():
            if isinstance(v, V):
                yield from parts(v)


def where(r):
    return r.mod.rel, r.node.lineno, r.cfg.name


# ------------------------------------------------------------------ C16
def c16(proj, res, tier):
    def f(pr, r):
        out, n = set(), 0
        for st, v in r.returns:
            for k, o in enumerate(outputs(v)):
                n += 1
                if any('verbose' in p.deps for p in heap_parts(o, st)):
                    out.add(k)
        return {'viol': sorted(out), 'n': n, 'w': where(r)}
    seen = set()
    for c, v, d in sweep(proj, f, only=lambda c: 'verbose' in dict(c.params), res=res, quiet=frozenset(['verbose'])):
        res.count('rule_instances', d['n'])
        seen.add(c.name)
        for k in d['viol']:
            res.add(f'C16|{c.name}|{k}', f'result {k} of gpytoolbox.{c.name} may depend on the value of "verbose" (configuration {c.id}/{v})',
                    *d['w'])
    res.cov['functions_with_verbose_flag'] = sorted(seen)
    if len(seen) < 5:
        raise AnalysisBroken('verbose flags vanished')
    res.assumptions.append('native routines and third-party solvers that are handed the flag only use it for output')


# ------------------------------------------------------------------ C20
READERS = {'read_mesh', 'read_dmat', 'png2poly'}
WRITERS = {'write_mesh'}
FILE_ARG = {'read_mesh': 'file', 'read_dmat': 'file_path', 'png2poly': 'filename', 'write_mesh': 'file'}
CPP_FILE_OK = re.compile(r'(binding_)?(read|write)_(obj|stl|ply|dmat|mesh)\.(cpp|h)$')
CPP_FS = re.compile(r'\b(?:std::)?(ofstream|ifstream|fstream|filebuf)\b|\b(fopen|freopen|tmpfile|popen|system|remove|rename|unlink|mkdir)\s*\(|'
                    r'\bigl::(write\w+|read\w+|serialize)\s*\(|\bstd::filesystem::|\bstd::(system|remove|rename)\b')


def write_mode(m):
    return not isinstance(m, str) or any(ch in m for ch in 'wax+')


def closed(proj):
    """open() calls whose file object is neither managed by a with statement nor closed in a finally clause."""
    for q, (m, node) in sorted(proj.functions.items()):
        managed, finals = set(), set()
        for s in ast.walk(node):
            if isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    for x in ast.walk(i.context_expr):
                        managed.add(id(x))
                    if isinstance(i.context_expr, ast.Name):
                        finals.add(i.context_expr.id)
                    for x in ast.walk(i.context_expr):
                        if isinstance(x, ast.Name):
                            finals.add(x.id)
            if isinstance(s, ast.Try):
                for x in s.finalbody:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'close' \
                                and isinstance(y.func.value, ast.Name):
                            finals.add(y.func.value.id)
        for s in ast.walk(node):
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('enter_context', 'callback', 'push', 'closing'):
                for a in s.args:
                    for x in ast.walk(a):
                        managed.add(id(x))
                        if isinstance(x, ast.Name):
                            finals.add(x.id)
        returned = {x.id for s in ast.walk(node) if isinstance(s, ast.Return) and s.value is not None
                    for x in ast.walk(s.value) if isinstance(x, ast.Name)}
        for s in ast.walk(node):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) \
                    and s.value.func.id == 'open' and id(s.value) not in managed:
                names = {t.id for t in s.targets if isinstance(t, ast.Name)}
                ok = not names or names & (finals | returned)
                yield m, q, s.lineno, ok
                managed.add(id(s.value))
        for s in ast.walk(node):
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == 'open':
                if id(s) in managed:
                    yield m, q, s.lineno, True
                else:
                    par = any(isinstance(x, ast.Return) and x.value is s for x in ast.walk(node))
                    yield m, q, s.lineno, par or not any(isinstance(x, (ast.Expr, ast.Attribute)) and getattr(x, 'value', None) is s
                                                         for x in ast.walk(node))


def drop_dead(s):
    """Blank out the blocks of `if (x)` where x is a local constant false."""
    for m in re.finditer(r'\bbool\s+(\w+)\s*=\s*false\s*;', s):
        x = m.group(1)
        if len(re.findall(r'(?<![=!<>])\b%s\s*=(?!=)' % x, s)) != len(re.findall(r'\bbool\s+%s\s*=\s*false\s*;' % x, s)) \
                or re.search(r'&\s*%s\b' % x, s):
            continue
        for k in list(re.finditer(r'\bif\s*\(\s*%s\s*\)\s*\{' % x, s)):
            e = balanced(s, k.end() - 1, '{', '}')
            s = s[:k.end()] + re.sub(r'[^\n]', ' ', s[k.end():e - 1]) + s[e - 1:]
    return s


def c20(proj, res, tier):
    def f(pr, r):
        out, n = [], 0
        name = r.cfg.name.split('.')[-1]
        for e in r.events:
            if e.kind not in ('open', 'fs'):
                continue
            if ':<module>' in e.qual:
                continue
            n += 1
            wr = e.kind == 'open' and write_mode(e.info.get('mode')) or e.kind == 'fs' and not e.info['name'].split('.')[-1] in (
                'imread', 'loadtxt', 'load', 'genfromtxt', 'fromfile', 'open', 'loadmat')
            what = f'open(mode={e.info.get("mode")!r})' if e.kind == 'open' else e.info['name']
            if name not in READERS and name not in WRITERS:
                out.append(('touches', f'{what} is reached from a function that is not documented to use files') + site(e))
            elif name in READERS and wr:
                out.append(('writes', f'{what} may write although the function only reads a file') + site(e))
            fa, x = FILE_ARG.get(name), e.info.get('file')
            if fa and x is not None and fa not in x.deps:
                out.append(('path', f'{what} uses a path that does not come from "{fa}"') + site(e))
        return {'viol': out, 'n': n}
    tot = 0
    for c, v, d in sweep(proj, f, res=res):
        res.count('rule_instances')
        tot += d['n']
        for kind, what, file, line, fn in d['viol']:
            res.add(f'C20|{fn}|{kind}', f'{what} (reached from gpytoolbox.{c.name}, configuration {c.id}/{v})', file, line, fn)
    res.cov['file_effects_seen'] = tot
    if not tot:
        raise AnalysisBroken('no file access found in the readers and writers')
    for m, q, line, ok in closed(proj):
        res.count('rule_instances')
        res.count('open_calls')
        if not ok:
            fn = q.replace(':', '.')
            res.add(f'C20|{fn}|unclosed', 'file is opened without a with statement or a finally clause that closes it', m.rel, line, fn)
    src = os.path.join(proj.repo, 'src/cpp')
    for base, dirs, files in sorted(os.walk(src)):
        for fl in sorted(files):
            rel = os.path.relpath(os.path.join(base, fl), proj.repo)
            if not fl.endswith(('.cpp', '.h', '.hpp')) or CPP_FILE_OK.search(fl) or 'tinyply' in rel or 'microstl' in rel:
                continue
            res.count('native_sources')
            s = strip_comments(open(os.path.join(base, fl), errors='replace').read())
            s = drop_dead(re.sub(r'"(?:\\.|[^"\\\n])*"', '""', s))
            for mm in CPP_FS.finditer(s):
                ln = s.count('\n', 0, mm.start()) + 1
                if mm.group(0).startswith(('remove', 'rename', 'unlink', 'system')) and re.search(r'[\w.>:]\s*$', s[max(0, mm.start() - 2):mm.start()]):
                    continue
                res.add(f'C20|{rel}|{mm.group(0).strip("( ")}', f'native code uses {mm.group(0).strip("( ")}', rel, ln)
    res.assumptions.append('file access inside third-party libraries (libigl, CGAL, scipy) is visible only by the name of the routine called')


# ------------------------------------------------------------------ C23
# documented to hand back or keep what they are given
SHARE_OK = {('reach_for_the_spheres_iteration', 'state'), ('write_mesh', '*')}


def c23(proj, res, tier):
    def f(pr, r):
        ps = set(node_params(r.node))
        scal = {k for k, t in r.cfg.params if re.match(r'^\??(k|b|str|rng|fn|e\{|N|=)', t)}
        out, n = [], 0
        for st, v in r.returns:
            for k, o in enumerate(outputs(v)):
                n += 1
                for p in heap_parts(o, st):
                    if p.kind in ('str', 'none', 'func', 'cls', 'mod', 'ext') or p.kind == 'num' and p.shape == () or p.ex('scalar') or p.ex('callable'):
                        continue
                    for root in p.roots:
                        if root in ps and root not in scal or root.startswith(('global:', 'default:')):
                            out.append((k, root))
        return {'viol': sorted(set(out)), 'n': n, 'w': where(r)}
    for c, v, d in sweep(proj, f, only=lambda c: c.driver is None and not c.name.endswith('_precompute'), res=res):
        res.count('rule_instances', d['n'])
        for k, root in d['viol']:
            if (c.name, root) in SHARE_OK or (c.name, '*') in SHARE_OK:
                continue
            what = f'argument "{root}"' if ':' not in root else f'package data {root}'
            res.add(f'C23|{c.name}|{k}|{root}', f'result {k} of gpytoolbox.{c.name} may share memory with {what} (configuration {c.id}/{v})',
                    *d['w'])
    if res.cov.get('rule_instances', 0) < 400:
        raise AnalysisBroken('too few results were analysed')
    res.assumptions.append('native code and unknown library calls return fresh memory')


# ------------------------------------------------------------------ C24
def returned_early(pr, I, m):
    """Some return statement hands out the array before any of its stores can have run."""
    node, q = I.uninit_at[m]
    stores = I.fills.get(m, [])
    if q not in pr.functions or any(x[2] != q or x[1] is None for x in stores):
        return False
    fn = pr.functions[q][1]
    loops = [l for l in ast.walk(fn) if isinstance(l, (ast.For, ast.While))]
    for ret, rq in I.uninit_ret.get(m, ()):
        if rq != q or ret.lineno <= node.lineno or any(x[1].lineno <= ret.end_lineno for x in stores):
            continue
        if not any(l.lineno <= ret.lineno <= l.end_lineno and any(l.lineno <= x[1].lineno <= l.end_lineno for x in stores) for l in loops):
            return True
    return False


def c24(proj, res, tier):
    def f(pr, r):
        out, n = set(), 0
        unf = {m for m, k in r.I.fills.items() if not covers({x for x, _, _ in k}, r.I.uninit_shape.get(m))
               or returned_early(pr, r.I, m)}
        for st, v in r.returns:
            for k, o in enumerate(outputs(v)):
                n += 1
                for p in heap_parts(o, st):
                    for d in p.deps:
                        if d.startswith('<uninit'):
                            if d in unf:
                                node, q = r.I.uninit_at[d]
                                out.add((k, 'memory of ' + d.split()[1].split('@')[0] + ' that is never (completely) written',
                                         getattr(node, 'lineno', 0), q))
                        elif d.startswith('<'):
                            out.add((k, {'<clock>': 'the clock', '<id()>': 'object identity', '<hash()>': 'string hashing'}.get(d, d.strip('<>')),
                                     r.node.lineno, ''))
        return {'viol': sorted(out), 'n': n, 'w': where(r)}
    for c, v, d in sweep(proj, f, res=res):
        res.count('rule_instances', d['n'])
        for k, what, line, q in d['viol']:
            file, l0, fn = d['w']
            if q:
                fn = q.replace(':', '.')
                m = proj.functions.get(q)
                file = m[0].rel if m else file
            res.add(f'C24|{c.name}|{k}|{what}', f'result {k} of gpytoolbox.{c.name} may depend on {what} (configuration {c.id}/{v})',
                    file, line, fn)
    if res.cov.get('rule_instances', 0) < 400:
        raise AnalysisBroken('too few results were analysed')
    res.assumptions.append('random generators are covered by C03 and package state by C02')


# ------------------------------------------------------------------ C08
FILE_NATIVES = {'_read_obj_cpp_impl': 7, '_read_stl_cpp_impl': 3, '_read_ply_cpp_impl': 5, '_write_obj_cpp_impl': 1,
                '_write_stl_cpp_impl': 1, '_write_ply_cpp_impl': 1}


def native_codes(repo):
    """Literal nonzero results of read_*/write_* in the native sources, with the file they come from."""
    out = {}
    for base, dirs, files in os.walk(os.path.join(repo, 'src/cpp')):
        for fl in sorted(files):
            if not fl.endswith(('.cpp', '.h', '.hpp')):
                continue
            s = strip_comments(open(os.path.join(base, fl), errors='replace').read())
            for m in re.finditer(r'\b(?:inline\s+|static\s+)*int\s+((?:read|write)_(?:obj|stl|ply))\s*\(', s):
                e = balanced(s, m.end() - 1)
                b = re.match(r'\s*\{', s[e:])
                if not b:
                    continue
                j = e + b.end() - 1
                body = s[j:balanced(s, j, '{', '}')]
                codes = {int(x.replace(' ', '')) for x in re.findall(r'\breturn\s+(-?\s*\d+)\s*;', body)}
                out.setdefault(m.group(1), set()).update(codes)
    return out


def c08(proj, res, tier):
    codes = native_codes(proj.repo)
    table = {}
    for nat in FILE_NATIVES:
        cs = set(codes.get(nat[1:].replace('_cpp_impl', ''), ())) | {77, -77, 1, -1, -2}
        table[nat] = sorted(cs - {0})
    res.cov['error_codes'] = {k: v for k, v in table.items()}

    def make(c):
        if c.name not in ('read_mesh', 'write_mesh'):
            return []
        t = dict(c.params)
        fm = t.get('fmt', '')
        fmts = [fm[1:]] if fm.startswith('=') else ['obj', 'stl', 'ply']
        out = []
        for fmt in fmts:
            nat = f'_{c.name.split("_")[0]}_{fmt}_cpp_impl'
            if nat in table:
                for code in [0] + table[nat]:
                    for v in VARIANTS:
                        out.append((fmt, nat, code, v))
        return out
    byi, jobs = cfg_jobs(make)

    def job(pr, j):
        c, fmt, nat, code, v = byi[j[0]], j[1], j[2], j[3], j[4]
        used = []

        def hook(I, st, name, args, kw, n, sym):
            if name not in FILE_NATIVES:
                return None
            used.append(name)
            d = udeps(list(args) + list(kw.values()))
            k = FILE_NATIVES[name]
            err = const(code if name == nat else 0)
            if k == 1:
                return err
            return tup([err] + [top(deps=d, sym=T.mk('natres', sym, i), extra={'notnone': True}) for i in range(1, k)])
        ov = {'fmt': const(fmt)}
        for e in ('reader', 'writer'):
            if e in dict(c.params) and fmt == 'obj':
                ov[e] = const('C++')
        r = drive.run(pr, c, v, override=ov, native=hook)
        # only calls that could not fail to reach the native routine count
        calls = [e for e in r.events if e.kind == 'native_call' and e.info['name'] == nat]
        return {'ret': len(r.returns), 'used': nat in used, 'n': len(r.outs),
                'w': site(calls[0]) if calls else (r.mod.rel, r.node.lineno, c.name), 'bud': any(e.kind == 'budget' for e in r.events)}
    seen = set()
    for (ci, fmt, nat, code, v), st, d in pmap(proj, job, jobs):
        c = byi[ci]
        if st != 'ok':
            res.unanalysed.append(f'{c.id}/{v} {nat}={code}: {d}')
            continue
        if not d['used'] or d['bud']:
            continue
        res.count('rule_instances')
        seen.add(nat)
        if code and d['ret']:
            res.add(f'C08|{c.name}|{nat}|{"unknown" if abs(code) == 77 else code}',
                    f'gpytoolbox.{c.name} returns normally although {nat} reports error {code} (configuration {c.id}/{v}, format {fmt})', *d['w'])
        if not code and not d['ret']:
            res.add(f'C08|{c.name}|{nat}|ok', f'gpytoolbox.{c.name} fails although {nat} reports success (configuration {c.id}/{v})', *d['w'])
    res.cov['native_routines'] = sorted(seen)
    if len(seen) < 4:
        raise AnalysisBroken('native readers and writers are no longer called: %s' % sorted(seen))
    # the binding must hand on the code of the routine
    for nat, k in sorted(FILE_NATIVES.items()):
        rel = 'src/cpp/binding' + nat.replace('_cpp_impl', '') + '.cpp'
        p = os.path.join(proj.repo, rel)
        if not os.path.exists(p):
            continue
        s = strip_comments(open(p).read())
        fn = nat[1:].replace('_cpp_impl', '')
        res.count('bindings')
        m = re.search(r'\bint\s+(\w+)\s*=\s*' + fn + r'\s*\(', s)
        t = re.search(r'make_tuple\s*\(\s*([\w-]+)\s*,', s)
        if m and t and t.group(1) != m.group(1) and re.match(r'-?\d+$', t.group(1)):
            res.add(f'C08|{rel}|dropped', f'the error code of {fn} is not returned: the binding returns {t.group(1)}', rel,
                    s.count('\n', 0, t.start()) + 1)
        if re.search(r'(?:^|[;{}])\s*' + fn + r'\s*\(', s):
            res.add(f'C08|{rel}|dropped', f'the error code of {fn} is dropped by the binding', rel, 0)


# ------------------------------------------------------------------ C14
# extrinsic name, arguments of the configuration, expression for the intrinsic version
PAIRS = [
    ('cotangent_laplacian', 'V=p(n,d) F=i(m,3)', 'cotangent_laplacian_intrinsic(L,F,n=V.shape[0])'),
    ('cotangent_weights', 'V=p(n,d) F=i(m,3)', 'cotangent_weights_intrinsic(L,F)'),
    ('angle_defect', 'V=p(n,d) F=i(m,3) use_small_angle_approx=b', 'angle_defect_intrinsic(L,F,n=V.shape[0],use_small_angle_approx=use_small_angle_approx)'),
    ('tip_angles', 'V=p(n,d) F=i(m,3) use_small_angle_approx=b', 'tip_angles_intrinsic(L,F,use_small_angle_approx=use_small_angle_approx)'),
    ('biharmonic_energy', "V=p(n,d) F=i(m,3) bc=='mixedfem_zero_neumann'", 'biharmonic_energy_intrinsic(L,F,n=V.shape[0],bc=bc)'),
    ('biharmonic_energy', "V=p(n,d) F=i(m,3) bc=='curved_hessian'", 'biharmonic_energy_intrinsic(L,F,n=V.shape[0],bc=bc)'),
    ('dec_h0', 'V=p(n,d) F=i(m,3)', 'dec_h0_intrinsic(L,F,n=V.shape[0])'),
    ('dec_h0inv', 'V=p(n,d) F=i(m,3)', 'dec_h0inv_intrinsic(L,F,n=V.shape[0])'),
    ('dec_h1', 'V=p(n,d) F=i(m,3)', 'dec_h1_intrinsic(L,F)'),
    ('dec_h1', 'V=p(n,d) F=i(m,3) E_to_he=i(e,2)', 'dec_h1_intrinsic(L,F,E_to_he=E_to_he)'),
    ('dec_h1inv', 'V=p(n,d) F=i(m,3)', 'dec_h1inv_intrinsic(L,F)'),
    ('dec_h1inv', 'V=p(n,d) F=i(m,3) E_to_he=i(e,2)', 'dec_h1inv_intrinsic(L,F,E_to_he=E_to_he)'),
    ('dec_h2', 'V=p(n,d) F=i(m,3)', 'dec_h2_intrinsic(L,F)'),
    ('dec_h2inv', 'V=p(n,d) F=i(m,3)', 'dec_h2inv_intrinsic(L,F)'),
    ('doublearea', 'V=p(n,3) F=i(m,3)', 'doublearea_intrinsic(L,F)'),
    ('doublearea', 'V=p(n,3) F=i(m,3) signed==True', 'doublearea_intrinsic(L,F)'),
    ('doublearea', 'V=p(n,2) F=i(m,3) signed==False', 'doublearea_intrinsic(L,F)'),
    ('massmatrix', "V=p(n,3) F=i(m,3) type=='voronoi'", 'massmatrix_intrinsic(L,F,n=V.shape[0],type=type)'),
    ('massmatrix', "V=p(n,3) F=i(m,3) type=='full'", 'massmatrix_intrinsic(L,F,n=V.shape[0],type=type)'),
    ('massmatrix', "V=p(n,2) F=i(m,3) type=='barycentric'", 'massmatrix_intrinsic(L,F,n=V.shape[0],type=type)'),
    ('massmatrix', 'V=p(n,3) F=i(m,3)', 'massmatrix_intrinsic(L,F,n=V.shape[0])'),
]


def isterm(x):
    return isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(T.rev)


def termdiff(a, b, seen, out, depth=0):
    """Collect the innermost places where two terms differ.  -> False when the structure differs."""
    if a == b or (a, b) in seen:
        return True
    seen.add((a, b))
    ta, tb = T.rev[a], T.rev[b]
    la, lb = ta[0] in ('c', 'param'), tb[0] in ('c', 'param')
    if la and lb:
        out.add((a, b))
        return True
    if ta[0] != tb[0] or len(ta) != len(tb) or ta[0] == 'fresh' or depth > 200:
        out.add((a, b))
        return False
    ok = True
    for x, y in zip(ta[1:], tb[1:]):
        if x == y:
            continue
        if isterm(x) and isterm(y) and x < a and y < b:
            ok = termdiff(x, y, seen, out, depth + 1) and ok
        else:
            out.add((a, b))
            ok = False
    return ok


def showleaf(i):
    t = T.rev[i]
    return t[2] if t[0] == 'c' else str(t[1]) if t[0] == 'param' else t[0]


CHANGING = {'minimum', 'fmin', 'sqrt', 'square', 'round', 'around', 'rint', 'floor', 'ceil', 'trunc', 'exp', 'log', 'cbrt', 'log1p', 'expm1'}


def scaled(a, b):
    """Is term a the term b times/plus a constant?"""
    t = T.rev[a]
    if t[0] == 'bin' and b in t[2:4]:
        o = t[3] if t[2] == b else t[2]
        if T.rev[o][0] == 'c' and T.rev[o][2] not in ('1', '1.0', '0', '0.0'):
            return f'{t[1]} {T.rev[o][2]}'
    if t[0] == 'ew' and b in t[2:]:
        cs = [x for x in t[2:] if x != b]
        if all(T.rev[x][0] == 'c' for x in cs) and (t[1] in CHANGING or t[1] in ('maximum', 'fmax')
                                                    and cs and T.rev[cs[0]][2] not in ('0', '0.0', '-inf')):
            return f'{t[1]}{" with " + T.rev[cs[0]][2] if cs else ""}'
    if t[0] in ('neg', 'un', 'unary') and b in t[1:]:
        return 'negated'
    return None


def c14(proj, res, tier):
    base = {'driver': None, 'cfg': '', 'batch': '', 'ret': None}
    tmpl = drive.configs()[0].__dict__

    def mkcfg(name, params, i, driver=None):
        d = {k: None for k in tmpl if k not in ('params', 'i', 'id', 'batchset')}
        d.update(base)
        d.update(name=name, params=params, driver=driver)
        return drive.Cfg(d, 9000 + i)

    def job(pr, j):
        i, v = j
        name, params, expr = PAIRS[i]
        calls = []

        def on_call(I, st, path, env, n):
            if path.endswith(':' + expr.split('(')[0]):
                calls.append({k: x for k, x in env.items()})
        ext = drive.run(pr, mkcfg(name, params, 2 * i), 'full', nofork=True, on_call=on_call)
        got = list(calls)
        del calls[:]
        ref = drive.run(pr, mkcfg('halfedge_lengths_squared', params, 2 * i + 1,
                                  'L = gpytoolbox.halfedge_lengths_squared(V,F)\nreturn gpytoolbox.' + expr), 'full', nofork=True, on_call=on_call)
        want = list(calls)
        w = (ext.mod.rel, ext.node.lineno, name)
        out = {'st': 'undecided', 'why': '', 'w': w}
        if len(ext.returns) != 1 or len(ref.returns) != 1:
            out['why'] = f'{len(ext.returns)} and {len(ref.returns)} return paths'
            return out
        a, b = ext.returns[0][1], ref.returns[0][1]
        if a.sym == b.sym:
            out['st'] = 'equal'
            return out
        s = scaled(a.sym, b.sym)
        if s:
            out.update(st='bad', why=f'the intrinsic result is changed afterwards ({s})', key='scaled')
            return out
        if b.deps - a.deps:
            out.update(st='bad', why=f'the result ignores {sorted(b.deps - a.deps)}', key='ignores')
            return out
        diff = set()
        if termdiff(a.sym, b.sym, set(), diff) and len(diff) == 1:
            x, y = next(iter(diff))
            out.update(st='bad', why=f'{showleaf(x)} is used instead of {showleaf(y)}', key='leaf')
            return out
        # delegation with other arguments
        if len(got) == 1 and want:
            for k in want[0]:
                x, y = got[0].get(k), want[0][k]
                if x is None or x.sym == y.sym or not isinstance(x, V):
                    continue
                if k == 'n' and x.poly is not y.poly and list(_maxima(x.sym)) and not list(_maxima(y.sym)):
                    out.update(st='bad', why='the number of vertices is read off the largest index in use', key='arg ' + k)
                    return out
                if x.kind == 'none' and y.kind != 'none' or x.poly is not None and y.poly is not None and x.poly != y.poly:
                    out.update(st='bad', why=f'the intrinsic version is called with another value of {k}', key='arg ' + k)
                    return out
                d2 = set()
                if termdiff(x.sym, y.sym, set(), d2) and len(d2) == 1:
                    x1, y1 = next(iter(d2))
                    out.update(st='bad', why=f'{showleaf(x1)} is used instead of {showleaf(y1)} in argument {k} of the intrinsic version',
                               key='arg ' + k)
                    return out
                if scaled(x.sym, y.sym):
                    out.update(st='bad', why=f'argument {k} of the intrinsic version is changed ({scaled(x.sym, y.sym)})', key='arg ' + k)
                    return out
        out['why'] = 'terms differ: ' + '; '.join(f'{T.show(x, 2)} / {T.show(y, 2)}' for x, y in sorted(diff)[:2])
        return out
    und = []
    for (i, v), st, d in pmap(proj, job, [(i, 'full') for i in range(len(PAIRS))]):
        name, params, expr = PAIRS[i]
        if st != 'ok':
            res.unanalysed.append(f'{name} [{params}]: {d}')
            continue
        res.count('rule_instances')
        res.count('pairs_' + d['st'])
        if d['st'] == 'bad':
            res.add(f'C14|{name}|{d["key"]}', f'gpytoolbox.{name} is not {expr} with L=halfedge_lengths_squared(V,F): {d["why"]} (arguments {params})', *d['w'])
        elif d['st'] == 'undecided':
            und.append(f'{name} [{params}]: {d["why"]}')
    res.cov['undecided'] = und
    if res.cov.get('rule_instances', 0) < len(PAIRS) - 4:
        raise AnalysisBroken('intrinsic/extrinsic pairs could not be analysed: %s' % res.unanalysed[:2])
