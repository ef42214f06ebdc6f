"""Behaviour-preserving rewrites of the analysed package, used to test that the checks stay quiet.

    rewrites.py NAME... OUT     copies /repo's working tree to OUT with the named rewrites applied to every module
    rewrites.py --list
"""
import ast
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


def names_in(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


class Fn(ast.NodeTransformer):
    """Visits each outermost function once."""
    def visit_FunctionDef(self, f):
        return self.do(f)

    def visit_Module(self, m):
        self.mod = m
        self.extra = []
        self.generic_visit(m)
        m.body += self.extra
        return m

    def visit_ClassDef(self, c):
        self.generic_visit(c)
        return c


def doc_len(body):
    return 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0


class NoOp(Fn):
    def do(self, f):
        k = doc_len(f.body)
        f.body[k:k] = ast.parse('_unused = None').body
        f.body.insert(len(f.body) - 1, ast.parse('pass').body[0])
        return f


class Rename(Fn):
    """Renames every plain local variable (not parameters)."""
    def do(self, f):
        params = {a.arg for g in ast.walk(f) if isinstance(g, (ast.FunctionDef, ast.Lambda))
                  for a in g.args.args + g.args.posonlyargs + g.args.kwonlyargs + [x for x in (g.args.vararg, g.args.kwarg) if x]}
        glob = {n for g in ast.walk(f) if isinstance(g, (ast.Global, ast.Nonlocal)) for n in g.names}
        inner = {g.name for g in ast.walk(f) if isinstance(g, (ast.FunctionDef, ast.ClassDef)) and g is not f}
        st = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - glob - inner
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in st:
                n.id = 'loc_' + n.id
        return f


class Swap(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)


class Asserts(ast.NodeTransformer):
    def visit_Assert(self, n):
        return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Raise(exc=ast.Call(
            func=ast.Name(id='AssertionError', ctx=ast.Load()), args=[n.msg] if n.msg else [], keywords=[]), cause=None)], orelse=[])


class Anf(ast.NodeTransformer):
    """Gives each strictly evaluated subexpression of simple statements a name of its own."""
    def __init__(self):
        self.k = 0

    def flat(self, e, out, top=False):
        # evaluation order is kept: operands left to right
        if isinstance(e, (ast.Name, ast.Constant)):
            return e
        if isinstance(e, ast.BinOp):
            e.left = self.flat(e.left, out)
            e.right = self.flat(e.right, out)
        elif isinstance(e, ast.UnaryOp):
            e.operand = self.flat(e.operand, out)
        elif isinstance(e, ast.Call) and not any(isinstance(a, ast.Starred) for a in e.args) and all(k.arg for k in e.keywords) \
                and isinstance(e.func, (ast.Name, ast.Attribute)) and not (isinstance(e.func, ast.Name) and e.func.id in ('super', 'locals', 'vars')):
            e.args = [self.flat(a, out) for a in e.args]
            for k in e.keywords:
                k.value = self.flat(k.value, out)
        elif isinstance(e, ast.Tuple) and isinstance(e.ctx, ast.Load) and not any(isinstance(a, ast.Starred) for a in e.elts):
            e.elts = [self.flat(a, out) for a in e.elts]
        elif isinstance(e, ast.Subscript) and isinstance(e.ctx, ast.Load):
            e.value = self.flat(e.value, out)
        else:
            return e
        if top:
            return e
        self.k += 1
        nm = f'anf_{self.k}'
        out.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=e))
        return ast.Name(id=nm, ctx=ast.Load())

    def block(self, body):
        res = []
        for s in body:
            out = []
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None \
                    and not any(isinstance(x, (ast.Lambda, ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(s)):
                s.value = self.flat(s.value, out, top=True)
            res += out + [s]
        return res

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        return f

    def generic_visit(self, n):
        super().generic_visit(n)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, fld, self.block(b))
        return n


class RetVar(Fn):
    """return e  ->  result = e; return result"""
    class R(ast.NodeTransformer):
        def visit_Lambda(self, n):
            return n

        def visit_Return(self, n):
            if n.value is None:
                return n
            return [ast.Assign(targets=[ast.Name(id='result_', ctx=ast.Store())], value=n.value),
                    ast.Return(value=ast.Name(id='result_', ctx=ast.Load()))]

    def do(self, f):
        return self.R().visit(f)


class Outline(Fn):
    """f(args): body  ->  f(args): return _impl_f(args);  _impl_f(args): body"""
    def do(self, f):
        a = f.args
        if a.vararg or a.kwarg or f.decorator_list or f.name.startswith('__') or (a.args and a.args[0].arg == 'self'):
            return f
        k = doc_len(f.body)
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        import copy
        args = copy.deepcopy(a)
        args.defaults, args.kw_defaults = [], [None] * len(args.kwonlyargs)
        args.args, args.kwonlyargs, args.posonlyargs, args.kw_defaults = args.posonlyargs + args.args + args.kwonlyargs, [], [], []
        g = ast.FunctionDef(name='_impl_' + f.name, args=args, body=f.body[k:] or [ast.Pass()], decorator_list=[], returns=None, type_params=[])
        # recursion keeps calling the public name, which is the same function
        self.extra.append(g)
        f.body = f.body[:k] + [ast.Return(value=ast.Call(func=ast.Name(id=g.name, ctx=ast.Load()),
                                                         args=[ast.Name(id=p, ctx=ast.Load()) for p in ps], keywords=[]))]
        return f


class While(ast.NodeTransformer):
    """for i in range(e) without else/continue  ->  while loop over a private counter"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if n.orelse or not isinstance(n.target, ast.Name) or not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name)
                                                                  and it.func.id == 'range' and len(it.args) == 1 and not it.keywords):
            return n
        if any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            return n
        While.k += 1
        c, e = f'cnt_{While.k}', f'end_{While.k}'
        return ast.parse(f'{c} = 0\n{e} = {ast.unparse(it.args[0])}').body + [ast.While(
            test=ast.parse(f'{c} < {e}', mode='eval').body,
            body=ast.parse(f'{n.target.id} = {c}').body + n.body + ast.parse(f'{c} += 1').body, orelse=[])]


class Idioms(ast.NodeTransformer):
    """Equivalent numpy spellings."""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Subscript)):
            return ast.BinOp(left=n.left, op=ast.Mult(), right=n.left)
        if isinstance(n.op, ast.Sub):
            return n
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = ast.unparse(n.func)
        kw = {k.arg: k.value for k in n.keywords}
        if f == 'np.concatenate' and len(n.args) == 1 and not kw:
            return ast.Call(func=n.func, args=n.args, keywords=[ast.keyword(arg='axis', value=ast.Constant(value=0))])
        if f == 'np.linalg.norm' and len(n.args) == 1 and set(kw) == {'axis'} and isinstance(n.args[0], ast.Name):
            return ast.parse(f'np.sqrt(np.sum({ast.unparse(n.args[0])}**2, axis={ast.unparse(kw["axis"])}))', mode='eval').body
        if f == 'np.sum' and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
            return ast.Call(func=ast.Attribute(value=n.args[0], attr='sum', ctx=ast.Load()), args=[], keywords=n.keywords)
        if f == 'np.zeros' and len(n.args) == 1 and not kw:
            return ast.Call(func=n.func, args=[], keywords=[ast.keyword(arg='shape', value=n.args[0]),
                                                           ast.keyword(arg='dtype', value=ast.parse('np.float64', mode='eval').body)])
        if f == 'np.logical_not' and len(n.args) == 1:
            return n
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        return n


class Zeros(ast.NodeTransformer):
    """np.zeros((..)) -> np.empty; x.fill / x[...] = 0 (kept equivalent)"""
    k = 0

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) \
                and ast.unparse(n.value.func) == 'np.zeros':
            t = n.targets[0].id
            v = ast.Call(func=ast.parse('np.empty', mode='eval').body, args=n.value.args, keywords=n.value.keywords)
            return [ast.Assign(targets=n.targets, value=v), ast.parse(f'{t}[...] = 0').body[0]]
        return n


class Early(ast.NodeTransformer):
    """if c: ...return / else: B  ->  if c: ...return; B   and  x = a if c else b -> statement"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise)):
            o = n.orelse
            n.orelse = []
            return [n] + o
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            return ast.If(test=v.test, body=[ast.Assign(targets=n.targets, value=v.body)], orelse=[ast.Assign(targets=n.targets, value=v.orelse)])
        return n


class Import(ast.NodeTransformer):
    """import numpy as np -> import numpy (and the uses)"""
    def visit_Import(self, n):
        for a in n.names:
            if a.name == 'numpy':
                a.asname = None
        return n

    def visit_Name(self, n):
        if n.id == 'np':
            n.id = 'numpy'
        return n


class AugX(ast.NodeTransformer):
    """x += e -> x = x + e for plain names that are certainly rebound to fresh numbers is not safe; only i += 1 counters"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
            return ast.Assign(targets=[n.target], value=ast.BinOp(left=ast.Name(id=n.target.id, ctx=ast.Load()), op=n.op, right=n.value))
        return n


class Kwargs(ast.NodeTransformer):
    """Unpacking of tuples by subscripts: a, b = f() -> t = f(); a = t[0]; b = t[1]"""
    k = 0

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call) \
                and not any(isinstance(e, ast.Starred) for e in n.targets[0].elts):
            Kwargs.k += 1
            t = f'tup_{Kwargs.k}'
            out = [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=n.value)]
            for i, e in enumerate(n.targets[0].elts):
                out.append(ast.Assign(targets=[e], value=ast.Subscript(value=ast.Name(id=t, ctx=ast.Load()), slice=ast.Constant(value=i), ctx=ast.Load())))
            return out
        return n


class Wrap(ast.NodeTransformer):
    """Harmless wrappers: np.asarray around returned arrays of a name, try/finally around bodies"""
    def visit_FunctionDef(self, f):
        if f.name.startswith('__') or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return f
        k = doc_len(f.body)
        f.body = f.body[:k] + [ast.Try(body=f.body[k:] or [ast.Pass()], handlers=[], orelse=[], finalbody=[ast.Pass()])]
        return f


class ListComp(ast.NodeTransformer):
    """[e for x in it] assigned to a name -> loop with append"""
    k = 0

    def visit_Assign(self, n):
        v = n.value
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(v, ast.ListComp) and len(v.generators) == 1 \
                and isinstance(v.generators[0].target, ast.Name) and n.targets[0].id not in names_in(v):
            g = v.generators[0]
            ListComp.k += 1
            old, new = g.target.id, f'lc_{ListComp.k}'
            for x in ast.walk(v):
                if isinstance(x, ast.Name) and x.id == old and not (x is g.iter):
                    x.id = new
            body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=n.targets[0].id, ctx=ast.Load()), attr='append', ctx=ast.Load()),
                                            args=[v.elt], keywords=[]))]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            return [ast.Assign(targets=n.targets, value=ast.List(elts=[], ctx=ast.Load())), ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        return n


class Annot(Fn):
    """Type annotations and a local alias for each parameter that is not rebound."""
    def do(self, f):
        a = f.args
        ps = [x.arg for x in a.args if x.arg != 'self']
        st = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        inner = [g for g in ast.walk(f) if isinstance(g, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp)) and g is not f]
        if inner or f.name.startswith('__'):
            return f
        k = doc_len(f.body)
        use = [p for p in ps if p not in st]
        for n in ast.walk(ast.Module(body=f.body, type_ignores=[])):
            if isinstance(n, ast.Name) and n.id in use:
                n.id = 'arg_' + n.id
        f.body[k:k] = [ast.parse(f'arg_{p} = {p}').body[0] for p in use]
        return f


ALL = {'noop': NoOp, 'rename': Rename, 'swap': Swap, 'asserts': Asserts, 'anf': Anf, 'retvar': RetVar, 'outline': Outline,
       'while': While, 'idioms': Idioms, 'zeros': Zeros, 'early': Early, 'import': Import, 'aug': AugX, 'unpack': Kwargs,
       'wrap': Wrap, 'listcomp': ListComp, 'alias': Annot}


def main():
    if sys.argv[1:] == ['--list']:
        print(*ALL)
        return
    *names, out = sys.argv[1:]
    os.makedirs(out)
    p = subprocess.Popen(['git', '-C', REPO, 'ls-files'], stdout=subprocess.PIPE, text=True)
    for f in p.communicate()[0].split('\n'):
        if f and not f.startswith(('test/', 'docs/')) and os.path.isfile(os.path.join(REPO, f)):
            d = os.path.join(out, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(os.path.join(REPO, f), d)
    for b, _, fs in os.walk(os.path.join(out, 'src/gpytoolbox')):
        for f in fs:
            if f.endswith('.py'):
                t = ast.parse(open(os.path.join(b, f)).read())
                for n in names:
                    t = ast.fix_missing_locations(ALL[n]().visit(t))
                s = ast.unparse(t)
                compile(s, f, 'exec')
                open(os.path.join(b, f), 'w').write(s + '\n')


if __name__ == '__main__':
    main()
