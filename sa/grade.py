"""Grades (homogeneity degrees, parity, phase) of value numbers.

Every base symbol has a grade: degree in the unit of the state, degree in the unit of time, parity under reversal of time,
degree in a complex factor of modulus one.  Sums, comparisons, minima and merges need terms of equal grade; a term of another
grade means that the value changes relative to its other terms when the problem is rescaled.
"""
from .poly import *

S, T, P, C = range(4)
NAMES = ('state', 'time', 'parity', 'phase')


class Any:
    """grade of zero, infinity and of machine limits; also of values not known yet"""
    def __repr__(self):
        return 'any'


ANY = Any()
NIL = (Fr(0), Fr(0), 0, 0)
UNK = (None,) * 4
LINEAR = ('sum', 'elt', 'T', 'vec', 'unvec', 'diff', 'diagof', 'diagm', 'round_keep')
PRODUCT = ('dot', 'mm', 'mv', 'outer', 'mul')
EVEN0 = ('exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'sinh', 'cosh', 'tanh', 'arccosh', 'arcsinh', 'floor',
         'ceil', 'round', 'int', 'acosh', 'asinh', 'acos', 'asin', 'atan')


class Grader:
    def __init__(self, base, second=False, wild=('tiny',)):
        self.base = base              # function: atom -> grade / ANY / None (unknown)
        self.second = second
        self.mus = {}
        self.bad = {}
        self.final = False
        self.memo = {}
        self.cmemo = {}
        self.origin = None

    # ------------------------------------------------------------------
    def report(self, comp, what, *parts):
        if self.final:
            k = (comp, what, tuple(p.id if hasattr(p, 'id') else p for p in parts))
            if k not in self.bad:
                self.bad[k] = (comp, what, parts, self.origin)

    def join(self, gs, what, need_even=False, skip=()):
        """common grade of terms [(grade, value)]"""
        out = None
        first = None
        for g, v in gs:
            if g is ANY:
                continue
            if out is None:
                out, first = list(g), [v] * 4
                continue
            for i in range(4):
                if out[i] is None:
                    continue
                if g[i] is None:
                    out[i] = None
                elif g[i] != out[i]:
                    if i not in skip:
                        self.report(i, what, first[i], v)
                    out[i] = None
        if out is None:
            return ANY
        if need_even:
            for i in (P, C):
                if out[i]:
                    self.report(i, what, *[v for g, v in gs if g is not ANY][:2])
                    out[i] = None
        return tuple(out)

    def times(self, a, b):
        if a is ANY or b is ANY:
            return ANY
        return tuple(None if x is None or y is None else (x + y) % 2 if i == P else x + y for i, (x, y) in enumerate(zip(a, b)))

    def power(self, g, e):
        if g is ANY:
            return ANY
        e = Fr(e)
        out = []
        for i, x in enumerate(g):
            if x is None:
                out.append(None)
            elif i == P:
                if e.denominator == 1:
                    out.append(int(x * e) % 2)
                else:
                    out.append(0 if x == 0 else None)
            else:
                out.append(x * e)
        return tuple(out)

    # ------------------------------------------------------------------
    def poly(self, p):
        if p in self.memo:
            return self.memo[p]
        gs = []
        for m, c in p.terms.items():
            g = NIL
            for i, e in m:
                g = self.times(g, self.power(self.atom(ATOMS[i]), e))
            gs.append((g, mk({m: c})))
        g = self.join(gs, 'sum') if gs else ANY
        self.memo[p] = g
        return g

    def need0(self, p, what, comps=(S, T, P, C)):
        g = self.poly(p)
        if g is not ANY:
            for i in comps:
                if g[i]:
                    self.report(i, what, p)
        return g

    def atom(self, a):
        g = self.memo.get(a)
        if g is None:
            g = self.memo[a] = self.atom1(a)
        return g

    def vals(self, x):
        """polynomials in the arguments of an operator"""
        if isinstance(x, Poly):
            return [x]
        if isinstance(x, (tuple, list)):
            return [z for y in x for z in self.vals(y)]
        return []

    def atom1(self, a):
        b = self.base(a)
        if b is not None:
            return b
        k = a.kind
        if k == 'sym':
            if a.info and (a.info.get('wild')):
                return ANY
            return UNK
        if k == 'mu':
            if a.info and a.info.get('unk'):
                return UNK
            return self.mus.setdefault(a.id, ANY)
        if k == 'ite':
            odd = self.cond(a.args[0])
            c, v = a.args[0], 1
            while isinstance(c, Cond) and c.kind == 'not':
                c, v = c.fargs[0], 3 - v
            if isinstance(c, Cond) and c.kind == 'eq' and a.args[3 - v].const is None:
                # a substitute for a quantity that vanishes
                return self.poly(a.args[3 - v])
            g = self.join([(self.poly(a.args[1]), a.args[1]), (self.poly(a.args[2]), a.args[2])], 'choice', skip=(P,) if odd else ())
            if odd and g is not ANY:
                g = g[:2] + (None,) + g[3:]
            return g
        if k == 'app':
            return self.app(a)
        if k == 'op':
            return self.opr(a)
        return UNK

    def app(self, a):
        name = a.args[0]
        t, ys = a.args[1], a.args[2]
        if isinstance(t, Poly):
            g = self.poly(t)
            if g is not ANY:
                for i, want in ((S, 0), (T, 1), (P, 1), (C, 0)):
                    if g[i] is not None and g[i] != want:
                        self.report(i, f'time argument of {name}', t)
        want = [self.ygrade(i) for i in range(len(ys))]
        for y, w in zip(ys, want):
            if isinstance(y, Poly):
                g = self.poly(y)
                if g is not ANY:
                    for i in range(4):
                        if g[i] is not None and g[i] != w[i]:
                            self.report(i, f'state argument of {name}', y)
        if name == 'F':
            k = a.args[3]
            k = int(k.const) if isinstance(k, Poly) and k.const is not None else 0
            y = self.ygrade(k)
            return self.times(y, (Fr(0), Fr(-1), 1, 0))
        if name == 'jac':
            return (Fr(0), Fr(-1), 1, 0)
        return UNK

    def ygrade(self, i):
        if self.second and i == 1:
            return (Fr(1), Fr(-1), 1, 1)
        return (Fr(1), Fr(0), 0, 1)

    def opr(self, a):
        n = a.args[0]
        xs = self.vals(a.args[1:])
        if n in ('max', 'min', 'npmax', 'npmin'):
            if n.startswith('np') and len(xs) == 1:
                g = self.poly(xs[0])
                return self.join([(g, xs[0])], n, need_even=True)
            return self.join([(self.poly(x), x) for x in xs], n, need_even=True)
        if n in ('abs', 'norm2', 'norminf', 'norm?', 'norm1', 'normF'):
            g = self.join([(self.poly(x), x) for x in xs], n, skip=(P, C))
            return g if g is ANY else g[:2] + (0, 0)
        if n == 'sign':
            g = self.poly(xs[0])
            return g if g is ANY else (Fr(0), Fr(0)) + g[2:]
        if n == 'pow':
            if len(xs) != 2:
                return UNK
            e = xs[1].const
            if e is not None:
                return self.power(self.poly(xs[0]), e)
            self.need0(xs[1], 'exponent')
            g = self.poly(xs[0])
            if g is ANY:
                return ANY
            # a common power of a graded base only differs by a factor if the base is not of degree zero
            for i in (S, T):
                if g[i]:
                    self.report(i, 'base of a power', xs[0])
            return tuple(0 if x == 0 else None for x in g)
        if n == 'inv':
            g = self.join([(self.poly(x), x) for x in xs], n)
            return self.power(g, -1)
        if n in EVEN0:
            for x in xs:
                self.need0(x, f'argument of {n}', (S, T, C))
            g = self.join([(self.poly(x), x) for x in xs], n)
            if g is ANY:
                return ANY
            return (Fr(0), Fr(0), 0 if g[P] == 0 else None, 0)
        if n == 'conj':
            g = self.poly(xs[0])
            return g if g is ANY else g[:3] + (None if g[C] is None else -g[C],)
        if n == 'real' or n == 'imag':
            self.need0(xs[0], f'{n} part', (C,))
            return self.poly(xs[0])
        if n in LINEAR:
            return self.join([(self.poly(x), x) for x in xs], n)
        if n in PRODUCT:
            g = NIL
            for x in xs:
                g = self.times(g, self.poly(x))
            return g
        if n == 'solve' and len(xs) >= 2:
            return self.times(self.power(self.poly(xs[0]), -1), self.poly(xs[-1]))
        if n == 'lu' and len(xs) == 1:
            return self.poly(xs[0])
        if n == 'nextafter':
            return self.poly(xs[0]) if xs else UNK
        if n in ('spacing',):
            return ANY
        if n == 'len' or n == 'rank':
            return NIL
        for x in xs:
            self.poly(x)
        return UNK

    def cond(self, c):
        """visit a condition; True if it distinguishes the directions of time"""
        if isinstance(c, bool):
            return False
        if c in self.cmemo:
            return self.cmemo[c]
        self.cmemo[c] = False
        r = self.cond1(c)
        self.cmemo[c] = r
        return r

    def cond1(self, c):
        k = c.kind
        if k in ('not', 'and', 'or', 'ite', 'all', 'any'):
            r = False
            for x in flat(c.fargs):
                if isinstance(x, Cond):
                    r = self.cond(x) or r
                elif isinstance(x, Poly):
                    self.poly(x)
            return r
        if k in ('lt', 'le'):
            xs = [x for x in c.fargs if isinstance(x, Poly)]
            gs = [(self.poly(x), x) for x in xs]
            g = self.join(gs, 'comparison', skip=(P, C))
            odd = False
            for gg, x in gs:
                if gg is not ANY:
                    if gg[C]:
                        self.report(C, 'comparison', x)
                    if gg[P]:
                        odd = True
                        # the direction itself may be tested
                        if not direction_only(c):
                            self.report(P, 'comparison', *xs)
                    if gg[P] is None:
                        odd = True
            return odd
        if k == 'eq':
            self.poly(c.fargs[0]) if isinstance(c.fargs[0], Poly) else None
            return any(a.kind == 'sym' and a.info and a.info.get('sign') for a in walk(c) if isinstance(a, Atom)) and direction_only(c)
        odd = False
        for x in flat(c.fargs):
            if isinstance(x, Poly):
                self.poly(x)
            elif isinstance(x, Cond):
                odd = self.cond(x) or odd
        return odd

    # ------------------------------------------------------------------
    def run(self, values, rounds=12, skip=()):
        """grade all values (Poly / Cond, with an origin); returns list of mismatches"""
        deps = set()
        todo = [v for _, v in values]
        seen = set()
        for a in walk(tuple(todo), through_mu=True):
            if isinstance(a, Atom) and a.kind == 'mu':
                deps.add(a.id)
        deps = sorted(deps)
        for i in deps:
            if self.base(ATOMS[i]) is None:
                srcs = [s for s in MU_SOURCES.get(i, ()) if isinstance(s, Poly)]
                self.mus[i] = ANY if srcs and len(srcs) == len(MU_SOURCES[i]) else UNK
        for r in range(rounds):
            self.memo, self.cmemo = {}, {}
            new = {}
            for i in deps:
                if self.base(ATOMS[i]) is not None or self.mus[i] is UNK:
                    continue
                srcs = sorted((s for s in MU_SOURCES[i] if isinstance(s, Poly)), key=lambda s: s.id)
                g = self.join([(self.poly(s), s) for s in srcs], 'merge')
                if g != self.mus[i]:
                    new[i] = g
            if not new:
                break
            self.mus.update(new)
        else:
            return None
        self.memo, self.cmemo = {}, {}
        for c in skip:
            self.cond(c)                # known from now on: not reported
        self.final = True
        for i in deps:
            if self.base(ATOMS[i]) is not None or self.mus[i] is UNK:
                continue
            self.origin = 'merge'
            srcs = sorted((s for s in MU_SOURCES[i] if isinstance(s, Poly)), key=lambda s: s.id)
            self.join([(self.poly(s), s) for s in srcs], 'merge')
        for o, v in values:
            self.origin = o
            if isinstance(v, Poly):
                self.poly(v)
            elif isinstance(v, Cond):
                self.cond(v)
        self.final = False
        return list(self.bad.values())


def flat(x):
    for y in x:
        if isinstance(y, (tuple, list)):
            yield from flat(y)
        else:
            yield y


def direction_only(c):
    return all(a.kind == 'sym' and a.info and a.info.get('sign') for x in flat(c.fargs) if isinstance(x, Poly) for a in poly_atoms(x))
