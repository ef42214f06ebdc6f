"""Loads the analysed tree: every Python module of src/gpytoolbox, parsed once."""
import ast
import hashlib
import os


class AnalysisBroken(Exception):
    """The tree no longer contains something the rule is about (vanished anchor)."""


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src, filename=path)
        self.env = None          # filled by the interpreter
        self.is_pkg = os.path.basename(path) == '__init__.py'
        for n in ast.walk(self.tree):
            n._mod = self


class Project:
    def __init__(self, repo):
        self.repo = repo
        self.root = os.path.join(repo, 'src', 'gpytoolbox')
        self.modules = {}
        h = hashlib.sha256()
        if not os.path.isdir(self.root):
            raise AnalysisBroken('src/gpytoolbox is missing')
        for d, ds, fs in sorted(os.walk(self.root)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                parts = os.path.relpath(p, os.path.join(repo, 'src'))[:-3].split(os.sep)
                if parts[-1] == '__init__':
                    parts = parts[:-1]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                h.update(rel.encode() + b'\0' + src.encode() + b'\0')
                name = '.'.join(parts)
                self.modules[name] = Module(name, p, rel, src)
        self.digest = h.hexdigest()
        self.functions = {}      # 'gpytoolbox.edges:edges' -> (Module, node)
        self.classes = {}
        for m in self.modules.values():
            self._index(m, m.tree.body, '')
        self.public = self._public()

    def _index(self, m, body, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + n.name
                n._qual = f'{m.name}:{q}'
                self.functions.setdefault(n._qual, (m, n))
                self._index(m, n.body, q + '.<locals>.')
            elif isinstance(n, ast.ClassDef):
                q = prefix + n.name
                n._qual = f'{m.name}:{q}'
                self.classes[n._qual] = (m, n)
                self._index(m, n.body, q + '.')
            elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for sub in ('body', 'orelse', 'finalbody'):
                    self._index(m, getattr(n, sub, []) or [], prefix)
                for h in getattr(n, 'handlers', []) or []:
                    self._index(m, h.body, prefix)

    def resolve_from(self, mod, node):
        """Absolute module named by an ImportFrom inside mod."""
        if node.level == 0:
            return node.module or ''
        parts = mod.name.split('.')
        if not mod.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:len(parts) - (node.level - 1)]
        if node.module:
            parts = parts + node.module.split('.')
        return '.'.join(parts)

    def _public(self):
        """name -> function/class node exported by the package's __init__ files."""
        out = {}
        for pkg in ('gpytoolbox', 'gpytoolbox.copyleft'):
            m = self.modules.get(pkg)
            if m is None:
                raise AnalysisBroken(f'package {pkg} is missing')
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    src = self.resolve_from(m, n)
                    for a in n.names:
                        tgt = self.lookup(src, a.name)
                        if tgt is not None:
                            key = a.asname or a.name
                            out[key if pkg == 'gpytoolbox' else 'copyleft.' + key] = tgt
        return out

    def lookup(self, modname, name, depth=0):
        m = self.modules.get(modname)
        if m is None or depth > 5:
            return None
        q = f'{modname}:{name}'
        if q in self.functions:
            return self.functions[q]
        if q in self.classes:
            return self.classes[q]
        for n in m.tree.body:
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        return self.lookup(self.resolve_from(m, n), a.name, depth + 1)
        return None

    def func(self, name):
        """Public function by exported name; vanished anchor if absent."""
        if name in self.public:
            return self.public[name]
        raise AnalysisBroken(f'public function {name} is no longer exported by gpytoolbox')
