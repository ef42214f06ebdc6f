"""Reads the C++ sources and CMake lists as text: comments stripped, balanced parentheses."""
import os
import re
from .project import AnalysisBroken


def strip_comments(s):
    """Blank out comments, keep strings and line structure."""
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            out.append(' ' * (j - i))
            i = j
        elif s.startswith('/*', i):
            j = s.find('*/', i + 2)
            j = n if j < 0 else j + 2
            out.append(re.sub(r'[^\n]', ' ', s[i:j]))
            i = j
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def balanced(s, i, op='(', cl=')'):
    """s[i] == op; index just after the matching close."""
    d = 0
    k = i
    while k < len(s):
        if s[k] == '"':
            k += 1
            while k < len(s) and s[k] != '"':
                k += 2 if s[k] == '\\' else 1
        elif s[k] == op:
            d += 1
        elif s[k] == cl:
            d -= 1
            if d == 0:
                return k + 1
        k += 1
    raise AnalysisBroken('unbalanced parentheses in a binding source')


def split_args(s):
    out, d, cur, k = [], 0, '', 0
    while k < len(s):
        ch = s[k]
        if ch == '"':
            j = k + 1
            while j < len(s) and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur += s[k:j + 1]
            k = j + 1
            continue
        if ch in '([{<':
            d += 1
        elif ch in ')]}' or ch == '>' and not cur.endswith('-'):
            d -= 1
        if ch == ',' and d <= 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
        k += 1
    if cur.strip():
        out.append(cur.strip())
    return out


class Binding:
    def __init__(self, name, file, line):
        self.name, self.file, self.line = name, file, line
        self.params = []        # [(type, name)]
        self.argnames = None    # py::arg names
        self.defaults = 0
        self.ret = None         # number of results, None unknown
        self.methods = {}
        self.init = None


def parse_lambda(s, i):
    """Lambda starting at '[' index i -> (params, body, end)."""
    j = balanced(s, i, '[', ']')
    m = re.compile(r'\s*\(').match(s, j)
    if not m:
        return None
    k = m.end() - 1
    e = balanced(s, k)
    ps = []
    for p in split_args(s[k + 1:e - 1]):
        p = p.split('=')[0].strip()
        m2 = re.match(r'(.*?)([A-Za-z_]\w*)$', p, re.S)
        ps.append((' '.join(m2.group(1).split()), m2.group(2)) if m2 else (p, ''))
    b = s.index('{', e)
    be = balanced(s, b, '{', '}')
    return ps, s[b:be], be


def result_count(body):
    """Number of values in the returned tuple; None when it is not a literal tuple."""
    ns = set()
    for m in re.finditer(r'\breturn\b([^;]*);', body):
        t = m.group(1).strip()
        mm = re.match(r'(?:std::|py::)?(?:make_tuple|tuple)\s*\(', t)
        if mm:
            e = balanced(t, mm.end() - 1)
            ns.add(len(split_args(t[mm.end():e - 1])))
        else:
            ns.add(None)
    return ns.pop() if len(ns) == 1 else None


def arg_names(tail):
    names, dflt = [], 0
    for m in re.finditer(r'(?:py::arg\s*\(\s*"(\w+)"\s*\)|"(\w+)"_a)(\s*=)?', tail):
        names.append(m.group(1) or m.group(2))
        dflt += bool(m.group(3))
    return names or None, dflt


class Cpp:
    def __init__(self, repo):
        self.repo = repo
        self.dir = os.path.join(repo, 'src', 'cpp')
        self.files = {}
        for d, ds, fs in sorted(os.walk(self.dir)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cpp', '.h', '.hpp')):
                    p = os.path.join(d, f)
                    with open(p, encoding='utf-8', errors='replace') as fh:
                        self.files[os.path.relpath(p, repo)] = strip_comments(fh.read())
        if not self.files:
            raise AnalysisBroken('no C++ binding sources under src/cpp')
        self.bindings = {}
        self.registrars = {}     # function name -> (file, [binding names])
        for rel, s in self.files.items():
            self.scan(rel, s)

    def scan(self, rel, s):
        regs = [(m.start(), m.group(1)) for m in re.finditer(r'\bvoid\s+(\w+)\s*\(\s*py::module_?\s*&\s*\w*\s*(?:,[^)]*)?\)\s*\{', s)]
        tmpl = {}
        for st, fn in regs:
            b = s.index('{', st)
            e = balanced(s, b, '{', '}')
            names = []
            body = s[b:e]
            local = dict(re.findall(r'const\s+char\s*\*\s*(\w+)\s*=\s*"(\w+)"', body) +
                         re.findall(r'(?:std::)?string\s+(\w+)\s*=\s*"(\w+)"', body))
            for m in re.finditer(r'\bm\.def\s*\(\s*(?:"(\w+)"|(\w+)(?:\.c_str\(\))?)\s*,', body):
                nm = m.group(1) or local.get(m.group(2))
                inst = [nm]
                if nm is None:      # the name is a parameter: one binding per call of this helper
                    inst = re.findall(re.escape(fn) + r'\s*(?:<[^;(]*>)?\s*\(\s*m\s*,\s*"(\w+)"', s)
                    tmpl[fn] = inst
                    nm = inst[0] if inst else '?'
                line = s.count('\n', 0, b + m.start()) + 1
                bd = Binding(nm, rel, line)
                k = body.index('(', m.start())
                ce = balanced(body, k)
                lb = re.compile(r'\s*\[').match(body, m.end())
                if lb:
                    r = parse_lambda(body, lb.end() - 1)
                    if r:
                        bd.params, lbody, le = r
                        bd.ret = result_count(lbody)
                        bd.argnames, bd.defaults = arg_names(body[le:ce])
                else:
                    bd.params = None
                for nm in inst:
                    names.append(nm)
                    self.bindings[nm] = bd
            for m in re.finditer(r'py::class_\s*<[^;(]*?>\s*(?:\w+)?\s*\(\s*m\s*,\s*"(\w+)"\s*[,)]', body):
                nm = m.group(1)
                bd = Binding(nm, rel, s.count('\n', 0, b + m.start()) + 1)
                # the chain of .def(...) up to ';' at depth 0
                k = body.index('(', m.start())
                end = balanced(body, k)
                chain_s = end
                while True:
                    mm = re.compile(r'\s*\.\s*(def\w*)\s*\(').match(body, chain_s)
                    if not mm:
                        break
                    de = balanced(body, mm.end() - 1)
                    inner = body[mm.end():de - 1]
                    if mm.group(1) == 'def':
                        self.defmethod(bd, inner)
                    else:
                        m3 = re.match(r'\s*"(\w+)"', inner)
                        if m3:
                            bd.methods[m3.group(1)] = None
                    chain_s = de
                names.append(nm)
                self.bindings[nm] = bd
            for h, inst in tmpl.items():
                if h != fn and re.search(r'\b' + h + r'\b', body):
                    names += inst
            self.registrars[fn] = (rel, names)

    def defmethod(self, bd, inner):
        m = re.match(r'\s*py::init\s*\(\s*\[', inner)
        if m:
            r = parse_lambda(inner, m.end() - 1)
            if r:
                ps, _, e = r
                names, d = arg_names(inner[e:])
                bd.init = (ps, names, d, None)
            return
        m = re.match(r'\s*py::init\s*<', inner)
        if m:
            e = balanced(inner, m.end() - 1, '<', '>')
            names, d = arg_names(inner[e:])
            bd.init = ([(t, '') for t in split_args(inner[m.end():e - 1])], names, d, None)
            return
        m = re.match(r'\s*"(\w+)"\s*,\s*', inner)
        if m:
            if m.end() < len(inner) and inner[m.end()] == '[':
                r = parse_lambda(inner, m.end())
                if r:
                    ps, b, e = r
                    names, d = arg_names(inner[e:])
                    bd.methods[m.group(1)] = (ps[1:], names, d, result_count(b))
                    return
            bd.methods[m.group(1)] = None

    # ---------------------------------------------------------- CMake
    def cmake(self):
        p = os.path.join(self.repo, 'CMakeLists.txt')
        if not os.path.exists(p):
            raise AnalysisBroken('CMakeLists.txt is missing')
        s = '\n'.join(l.split('#')[0] for l in open(p, encoding='utf-8'))
        vars_, targets = {}, {}
        for m in re.finditer(r'(?m)^\s*(\w+)\s*\(', s):
            e = balanced(s, m.end() - 1)
            toks = re.findall(r'"[^"]*"|[^\s"]+', s[m.end():e - 1])
            toks = [t.strip('"') for t in toks]
            ex = []
            for t in toks:
                mm = re.fullmatch(r'\$\{(\w+)\}', t)
                if mm and mm.group(1) in vars_:
                    ex += vars_[mm.group(1)]
                else:
                    ex.append(t.replace('${CMAKE_CURRENT_SOURCE_DIR}/', ''))
            c = m.group(1)
            if c == 'set' and ex:
                vars_[toks[0]] = ex[1:]
            elif c in ('add_library', 'pybind11_add_module') and ex:
                targets.setdefault(ex[0], {'src': [], 'link': []})['src'] += [os.path.normpath(x) for x in ex[1:]
                                                                               if x.endswith(('.cpp', '.h', '.c', '.cc'))]
            elif c == 'target_sources' and ex:
                targets.setdefault(ex[0], {'src': [], 'link': []})['src'] += [os.path.normpath(x) for x in ex[1:] if '.' in x]
            elif c == 'target_link_libraries' and ex:
                targets.setdefault(ex[0], {'src': [], 'link': []})['link'] += ex[1:]
        return targets

    def closure(self, srcs):
        """Files of src/cpp reachable by #include from srcs, and all include strings."""
        seen, incs, todo = set(), [], [os.path.normpath(s) for s in srcs]
        while todo:
            f = todo.pop()
            if f in seen or f not in self.files:
                continue
            seen.add(f)
            for m in re.finditer(r'(?m)^[ \t]*#\s*include\s*[<"]([^>"]+)[>"]', self.files[f]):
                line = self.files[f].count('\n', 0, m.start()) + 1
                incs.append((f, line, m.group(1)))
                for base in (os.path.dirname(f), 'src/cpp'):
                    t = os.path.normpath(os.path.join(base, m.group(1)))
                    if t in self.files:
                        todo.append(t)
                        if t.endswith('.h') and t[:-2] + '.cpp' in self.files:
                            todo.append(t[:-2] + '.cpp')
                        break
        return seen, incs
