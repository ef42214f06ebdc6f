"""Hash-consed terms (global value numbers) and integer polynomials.

A term is a tuple (op, arg, ...) interned to a small int; two expressions with
the same id were built from the same operations on the same inputs, so equal ids
mean equal run-time values on every input.
"""
import re
from fractions import Fraction


class Terms:
    def __init__(self):
        self.tab = {}
        self.rev = []
        self.fresh_n = 0

    def mk(self, *t):
        i = self.tab.get(t)
        if i is None:
            i = len(self.rev)
            self.tab[t] = i
            self.rev.append(t)
        return i

    def const(self, c):
        return self.mk('c', type(c).__name__, repr(c))

    def fresh(self, why=''):
        self.fresh_n += 1
        return self.mk('fresh', why, self.fresh_n)

    def stays_empty(self, i, depth=40):
        """Can the list i, grown in a loop from an empty one, come out of it with nothing appended (a
        conditional append)?"""
        def idle(j, d):
            t = self.rev[j]
            if d == 0:
                return False
            if t[0] == 'lphi':
                return True
            if t[0] == 'phi':
                return any(idle(x, d - 1) for x in t[2:])
            if t[0] == 'lout':
                return t[2] >= 0 and t[3] >= 0 and idle(t[2], d - 1) and idle(t[3], d - 1)
            return False
        t = self.rev[i]
        return t[0] == 'lout' and t[2] >= 0 and t[3] >= 0 and depth > 0 and idle(t[3], 40) \
            and (self.rev[t[2]] == ('list',) or self.stays_empty(t[2], depth - 1))

    def contains(self, i, what, budget=3000):
        """May term i be built from term what?  (True when the search is cut short.)"""
        seen, todo = set(), [i]
        while todo:
            j = todo.pop()
            if j == what:
                return True
            if j in seen or j < what:
                continue
            seen.add(j)
            if len(seen) > budget:
                return True
            todo += [x for x in self.rev[j][1:] if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < j]
        return False

    def show(self, i, depth=4):
        if not isinstance(i, int) or i < 0 or i >= len(self.rev):
            return repr(i)
        t = self.rev[i]
        if t[0] == 'c':
            return t[2]
        if t[0] == 'param':
            return str(t[1])
        if depth <= 0:
            return '…'
        return t[0] + '(' + ', '.join(
            self.show(x, depth - 1) if isinstance(x, int) and not isinstance(x, bool) else str(x)
            for x in t[1:]) + ')'


T = Terms()


class Poly:
    """Polynomial with rational coefficients over named atoms."""
    __slots__ = ('d', '_h')

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v != 0}
        self._h = None

    @staticmethod
    def c(x):
        return Poly({(): Fraction(x)})

    @staticmethod
    def atom(a):
        return Poly({(a,): Fraction(1)})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for k, v in self.d.items():
            for k2, v2 in o.d.items():
                kk = tuple(sorted(k + k2))
                d[kk] = d.get(kk, 0) + v * v2
        return Poly(d)

    def divc(self, c):
        return Poly({k: v / Fraction(c) for k, v in self.d.items()})

    def is_const(self):
        return all(k == () for k in self.d)

    def const(self):
        return self.d.get((), Fraction(0))

    def as_int(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        return None

    def atoms(self):
        return {a for k in self.d for a in k}

    def subst(self, m):
        if not m or not (self.atoms() & set(m)):
            return self
        r = Poly()
        for k, v in self.d.items():
            t = Poly.c(v)
            for a in k:
                t = t * (m[a] if a in m else Poly.atom(a))
            r = r + t
        return r

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        for k, v in sorted(self.d.items()):
            s = '*'.join(k)
            if not k:
                out.append(str(v))
            elif v == 1:
                out.append(s)
            else:
                out.append(f'{v}*{s}')
        return ' + '.join(out)


PHI = {}      # atom name -> (condition term, value if true, value if false)


def _plain(p):
    return all(re.fullmatch(r'#?(?!(?:cnt|uniq|len|d|set|cat|del|nnz)\d+$)[A-Za-zφ_]\w*', a) for a in p.atoms())


def phi(p, q, c):
    """A size that is p or q depending on the condition c of an if; None when the alternatives are not worth keeping."""
    if p is None or q is None or c is None or c < 0 or T.rev[c][0] == 'loopj' or not _plain(p) or not _plain(q):
        return None
    if len(alternatives(p)) + len(alternatives(q)) > 6:
        return None
    name = f'φ{T.mk("pphi", c, repr(p), repr(q))}'
    PHI[name] = (c, p, q)
    return Poly.atom(name)


def alternatives(p, chosen=None):
    """[(conditions taken, polynomial without phi atoms)]"""
    chosen = chosen or {}
    for a in p.atoms():
        if a in PHI:
            c, x, y = PHI[a]
            out = []
            for side, z in ((True, x), (False, y)):
                if chosen.get(c, side) == side:
                    out += alternatives(p.subst({a: z}), {**chosen, c: side})
            return out
    return [(chosen, p)]
