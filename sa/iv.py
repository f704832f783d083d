"""Interval (with NaN flag) evaluation of value numbers under path facts."""
from .poly import *
from math import inf as INFI

SCALAR = ('abs', 'max', 'min', 'npmax', 'npmin', 'pow', 'inv', 'sqrt', 'floor', 'exp10')
DEN = 5e-324       # marks 'strictly positive'


class Ctx:
    """facts: dict Cond -> bool"""
    tab = {}             # ranges of merged values (ranges.refine)

    def __init__(self, facts, assume_finite=False, parent=None, extra=None, kid=False):
        self.memo = {}
        self.af = assume_finite
        self.kids = {}
        self.parent = parent
        if parent is not None:
            self.depth = parent.depth + (1 if kid else 0)
            self.chain = parent.chain + 1
            self.b = dict(parent.b)
            self.touched = dmask(extra[0])
            self.facts = {**parent.facts, extra[0]: extra[1]}
            self._learn(*extra)
            self.memo = {}
            return
        self.depth = 0
        self.chain = 0
        self.touched = -1
        self.facts = facts
        self.b = {}          # primitive poly -> (lo, hi, nonan)
        for c, v in facts.items():
            if not isinstance(c, Cond):
                continue
            self._learn(c, v)
        self.memo = {}

    def extend(self, c, v):
        """context with one more fact"""
        if self.chain > 24:
            return Ctx({**self.facts, c: v}, self.af)
        return Ctx(None, self.af, self, (c, v))

    def _prim(self, p):
        """p = s*q + k with q primitive (lead 1, no constant term)"""
        k = p.terms.get((), Fr(0))
        q = add(p, num(-k)) if k else p
        if not q.terms:
            return None, Fr(0), k
        l = _lead_(q)
        return scale(q, 1 / l), l, k

    def _bound(self, p, lo, hi):
        q, s, k = self._prim(p)
        if q is None:
            return
        a, b = sub_(lo, k), sub_(hi, k)
        a, b = divs(a, s), divs(b, s)
        if s < 0:
            a, b = b, a
        cur = self.b.get(q)
        if cur is None:
            self.b[q] = (a, b, True)
        else:
            self.b[q] = (max(cur[0], a), min(cur[1], b), cur[2])

    def _learn(self, c, v):
        if c.kind in ('lt', 'le'):
            a, b = c.fargs
            if v:
                # a < b , both non-NaN
                self._nn(a); self._nn(b)
                if INF in (a, b):
                    return
                self._bound(add(a, neg(b)), -INFI, -DEN if c.kind == 'lt' else 0)
            else:
                # not a<b : a >= b or NaN : usable only if both cannot be NaN
                la = self.iv(a); lb = self.iv(b)
                if not la[2] and not lb[2]:
                    if INF in (a, b):
                        return
                    self._bound(add(a, neg(b)), 0 if c.kind == 'lt' else DEN, INFI)
        elif c.kind == 'eq' and v:
            self._bound(c.fargs[0], 0, 0)
        elif c.kind == 'and' and v:
            for x in c.fargs:
                self._learn(x, True)
        elif c.kind == 'not':
            self._learn(c.fargs[0], not v)
        elif c.kind == 'isnan' and not v:
            self._nn(c.fargs[0])

    def _nn(self, p):
        q, s, k = self._prim(p)
        if q is not None:
            c = self.b.get(q)
            self.b[q] = (c[0], c[1], True) if c is not None else (-INFI, INFI, True)
            self.memo = {}

    def iv(self, p):
        r = self.memo.get(p)
        if r is None:
            if self.parent is not None and not pmask(p) & self.touched:
                r = self.memo[p] = self.parent.iv(p)
                return r
            self.memo[p] = (-INFI, INFI, True)
            r = self.memo[p] = self._iv(p)
        return r

    def _iv(self, p):
        c = p.const
        if c is not None:
            f = tofloat(c)
            return (f, f, False)
        lo, hi, nan = 0.0, 0.0, False
        for m, c in p.terms.items():
            l, h, n = self.mono(m)
            c = tofloat(c)
            l, h = (fm(l, c), fm(h, c)) if c > 0 else (fm(h, c), fm(l, c))
            if (lo == -INFI and l == INFI) or (lo == INFI and l == -INFI) or \
               (hi == INFI and h == -INFI) or (hi == -INFI and h == INFI):
                nan = True
            lo = lo + l if not (abs(lo) == INFI and abs(l) == INFI and lo != l) else -INFI
            hi = hi + h if not (abs(hi) == INFI and abs(h) == INFI and hi != h) else INFI
            nan = nan or n
        q, s, k = self._prim(p)
        b = self.b.get(q)
        if b is not None:
            a1, b1 = b[0], b[1]
            a1, b1 = muls(a1, s), muls(b1, s)
            if s < 0:
                a1, b1 = b1, a1
            a1, b1 = a1 + float(k), b1 + float(k)
            lo, hi = max(lo, a1), min(hi, b1)
            nan = nan and not b[2]
        if lo != lo:
            lo = -INFI
        if hi != hi:
            hi = INFI
        return (lo, hi, nan)

    def mono(self, m):
        lo, hi, nan = 1.0, 1.0, False
        if len(m) > 1:
            for q, b in self.b.items():
                if len(q.terms) == 1:
                    (mb, c), = q.terms.items()
                    if len(mb) > 1 and mb != m:
                        d = dict(m)
                        r = {Fr(d[a]) / Fr(e) if a in d else None for a, e in mb}
                        if len(r) == 1 and None not in r:
                            e, = r
                            l, h, n = self.iv(q)
                            lo, hi, n2 = powiv(l, h, e)
                            nan = n or n2
                            ks = {a for a, _ in mb}
                            m = tuple(x for x in m if x[0] not in ks)
                            break
        for a, e in m:
            l, h, n = self.at(ATOMS[a])
            l, h, n2 = powiv(l, h, e)
            nan = nan or n or n2
            lo, hi, n3 = muliv(lo, hi, l, h)
            nan = nan or n3
        return lo, hi, nan

    def at(self, a):
        i = a.info or {}
        p = of_atom(a)
        b = self.b.get(p)
        r = self._at(a, i)
        if b is not None:
            r = (max(r[0], b[0]), min(r[1], b[1]), r[2] and not b[2])
        return r

    def kid(self, c, v):
        k = self.kids.get((c, v))
        if k is None:
            k = self.kids[(c, v)] = Ctx(None, self.af, self, (c, v), True)
        return k

    def _at(self, a, i):
        if i.get('sign'):
            return (-1.0, 1.0, False)
        if a.kind in ('sym', 'mu'):
            if i.get('inf'):
                return (INFI, INFI, False)
            lo = i.get('lo', DEN if i.get('pos') else 0.0 if i.get('nonneg') else -INFI)
            hi = i.get('hi', INFI)
            nan = i.get('nan', False)
            t = self.tab.get(a.id) if a.kind == 'mu' else None
            if t is not None:
                lo, hi, nan = max(lo, t[0]), min(hi, t[1]), nan and t[2]
            return (lo, hi, nan and not self.af)
        if a.kind == 'app':
            return (-INFI, INFI, not self.af)
        if a.kind == 'ite':
            c, x, y = a.args
            v = self.truth(c)
            if v is True:
                return self.iv(x)
            if v is False:
                return self.iv(y)
            if self.depth < 2 and len(self.kids) < 60 and dmask(c) & (pmask(x) | pmask(y)):
                cx, cy = self.kid(c, True), self.kid(c, False)
            else:
                cx = cy = self
            X, Y = cx.iv(x), cy.iv(y)
            return (min(X[0], Y[0]), max(X[1], Y[1]), X[2] or Y[2])
        if a.kind == 'op':
            n = a.args[0]
            ar = a.args[1:]
            if n not in SCALAR and not self.af and amask(a) & APPBITS[0]:
                # a value computed from results of user code: may be NaN
                if n in ('norm', 'l2') or i.get('nonneg') or (n == 'dot' and len(ar) == 2 and ar[0] is ar[1]):
                    return (0.0, INFI, True)
                if n in ('real', 'imag', 'conj', 'elt', 'take', 'dot', 'mv', 'solve', 'lusolve', 'sum'):
                    return (-INFI, INFI, True)
            if n == 'abs':
                l, h, nn = self.iv(ar[0])
                if l >= 0:
                    return (l, h, nn)
                if h <= 0:
                    return (-h, -l, nn)
                return (0.0, max(-l, h), nn)
            if n in ('max', 'min', 'npmax', 'npmin'):
                X, Y = self.iv(ar[0]), self.iv(ar[1])
                f = max if 'max' in n else min
                lo, hi = f(X[0], Y[0]), f(X[1], Y[1])
                if n.startswith('np'):
                    return (lo, hi, X[2] or Y[2])
                # python max(a, b): b if b > a else a : NaN b ignored, NaN a kept
                if Y[2]:      # b may be NaN -> result a
                    lo, hi = min(lo, X[0]), max(hi, X[1])
                return (lo, hi, X[2])
            if n == 'pow':
                l, h, nn = self.iv(ar[0])
                e = ar[1].const
                if e is None:
                    E = self.iv(ar[1])
                    if l > 0 and not E[2]:
                        c = [pw(x, y) for x in (l, h) for y in (E[0], E[1])]
                        return (min(c), max(c), nn)
                    return (0.0 if l >= 0 else -INFI, INFI, True)
                if e != int(e) and l < 0:
                    l, nn = 0.0, True
                l, h, n2 = powiv(l, h, e)
                return (l, h, nn or n2)
            if n == 'inv':
                l, h, nn = self.iv(ar[0])
                l, h, n2 = powiv(l, h, -1)
                return (l, h, nn or n2)
            if n in ('norm', 'l2', 'sqrt'):
                l, h, nn = self.iv(ar[0])
                return (0.0, INFI, nn)
            if n in ('real', 'imag', 'conj', 'elt', 'take'):
                l, h, nn = self.iv(ar[0]) if isinstance(ar[0], Poly) else (-INFI, INFI, True)
                return (l, h, nn) if n != 'imag' else (-INFI, INFI, nn)
            if n == 'dot':
                nn = any(self.iv(x)[2] for x in ar if isinstance(x, Poly))
                if i.get('nonneg') or len(ar) == 2 and ar[0] is ar[1]:
                    return (0.0, INFI, nn)
                return (-INFI, INFI, nn)
            if n == 'floor':
                l, h, nn = self.iv(ar[0])
                import math
                return (math.floor(l) if abs(l) < INFI else l, math.floor(h) if abs(h) < INFI else h, nn)
            if n == 'exp10':
                return (0.0, INFI, True)
            lo = i.get('lo', DEN if i.get('pos') else 0.0 if i.get('nonneg') else -INFI)
            hi = i.get('hi', INFI)
            nan = i.get('nan')
            if nan is None and not self.af and amask(a) & APPBITS[0]:
                nan = True
            if nan is None:
                nan = any(self.iv(x)[2] for x in ar if isinstance(x, Poly)) or i.get('unk', False)
            return (lo, hi, nan)
        return (-INFI, INFI, True)

    def truth(self, c):
        """True/False/None"""
        if isinstance(c, bool):
            return c
        v = self.facts.get(c)
        if v is not None:
            return v
        if c.kind == 'not':
            v = self.truth(c.fargs[0])
            return None if v is None else not v
        if c.kind == 'and':
            vs = [self.truth(x) for x in c.fargs]
            if False in vs:
                return False
            if all(v is True for v in vs):
                return True
            return None
        if c.kind in ('lt', 'le'):
            a, b = c.fargs
            A, B = self.iv(a), self.iv(b)
            if c.kind == 'lt':
                if A[0] >= B[1]:
                    return False
                if A[1] < B[0] and not A[2] and not B[2]:
                    return True
            else:
                if A[0] > B[1]:
                    return False
                if A[1] <= B[0] and not A[2] and not B[2]:
                    return True
            if INF not in (a, b) and neg(INF) not in (a, b):
                d = self.iv(add(a, neg(b)))
                nan = d[2] or A[2] or B[2]
                if c.kind == 'lt':
                    if d[0] >= 0:
                        return False
                    if d[1] < 0 and not nan:
                        return True
                else:
                    if d[0] > 0:
                        return False
                    if d[1] <= 0 and not nan:
                        return True
            return None
        if c.kind == 'eq':
            l, h, n = self.iv(c.fargs[0])
            if l > 0 or h < 0:
                return False
            return None
        if c.kind == 'isnan':
            if not self.iv(c.fargs[0])[2]:
                return False
        if c.kind == 'isinf':
            l, h, n = self.iv(c.fargs[0])
            if l > -INFI and h < INFI:
                pass
        return None


def tofloat(c):
    return float(c) if abs(c) < 10 ** 300 else 1e300 if c > 0 else -1e300


def _lead_(p):
    m = min(p.terms)
    return p.terms[m]


def sub_(x, k):
    return x if abs(x) == INFI else x - float(k)


def fm(x, y):
    r = x * y
    if r == 0 and x != 0 and y != 0:
        return DEN if (x > 0) == (y > 0) else -DEN
    return r


def divs(x, s):
    if abs(x) == INFI:
        return x if s > 0 else -x
    r = x / float(s)
    return r if r or not x else (DEN if (x > 0) == (s > 0) else -DEN)


def muls(x, s):
    if abs(x) == INFI:
        return x if s > 0 else -x
    return fm(x, float(s))


def pw(x, e):
    try:
        if x == 0 and e < 0:
            return INFI
        if x == INFI:
            return INFI if e > 0 else (0.0 if e < 0 else 1.0)
        r = float(x) ** float(e)
        return DEN if r == 0 and x > 0 else r
    except OverflowError:
        return INFI


def powiv(l, h, e):
    e = Fr(e)
    if e == 1:
        return l, h, False
    if e == int(e) and int(e) % 2 == 0:
        a, b = abs(l), abs(h)
        lo = 0.0 if l <= 0 <= h else min(a, b)
        hi = max(a, b)
        x, y = pw(lo, float(e)), pw(hi, float(e))
        return min(x, y), max(x, y), False
    if e < 0:
        if l >= 0:
            return pw(h, float(e)), pw(l, float(e)), False
        if h < 0 and e == int(e):
            return -pw(-h, float(e)) if h else -INFI, -pw(-l, float(e)), False
        return -INFI, INFI, False
    if l >= 0:
        return pw(l, float(e)), pw(h, float(e)), False
    if e == int(e):
        return (-pw(-l, float(e)), pw(h, float(e)) if h >= 0 else -pw(-h, float(e)), False)
    return 0.0, pw(max(h, 0.0), float(e)), True


def muliv(a, b, c, d):
    nan = False
    out = []
    for x in (a, b):
        for y in (c, d):
            if (x == 0 and abs(y) == INFI) or (y == 0 and abs(x) == INFI):
                out.append(0.0)
            else:
                out.append(fm(x, y))
    return min(out), max(out), nan
