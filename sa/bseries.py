"""Order theory on value numbers: B-series (P-series for Nystrom methods) of polynomials in f-evaluations.

A value published by a step is a polynomial in the old state, the step size H and applications of the user's f to such values.
Its expansion in elementary differentials is compared with that of the exact solution, tree by tree."""
from functools import lru_cache
from .poly import *
from .poly import Fr

HS = sym('H!', real=True)
TH = sym('theta!', real=True)
HID = the_atom(HS).id
TID = the_atom(TH).id


class NotSeries(Exception):
    """value is not a series in H; definite: it certainly is not what a method may compute"""

    def __init__(self, msg, definite=False, what=None):
        super().__init__(msg)
        self.definite, self.what = definite, what


# trees -----------------------------------------------------------------------
class Trees:
    """rooted trees as children lists. sort 'y': f-root tree; 't': leaf (time); second order: 'l': leaf H*v0 in x, ('x', i): H*v-tree in x"""

    def __init__(self, order, second, times, novel=False):
        self.second = second
        self.novel = novel               # f does not depend on the velocity
        # items: nodes that can be children of f: (order, kind, index)
        self.nodes = []                  # f-trees: (order, children tuple)   index in this list
        self.kids = []                   # possible children: (order, kind, ref)
        self.exact = []                  # exact weight of f-trees
        self.kidx = []                   # exact weight of kids
        if times:
            self._kid(1, 't', None, 1.0)
        if second:
            self._kid(1, 'l', None, 1.0)
        for n in range(1, order + 1):
            new = list(self._multisets(n - 1, len(self.kids)))
            for ch in new:
                w = 1.0 / n
                for c in ch:
                    w *= self.kidx[c]
                self.nodes.append((n, ch))
                self.exact.append(w)
                i = len(self.nodes) - 1
                self._pending = (n, i, w)
                self._later(n, i, w)
            self._flush(n)

    def _kid(self, n, kind, ref, w):
        self.kids.append((n, kind, ref))
        self.kidx.append(w)

    def _later(self, n, i, w):
        if not hasattr(self, 'queue'):
            self.queue = []
        if not self.novel:
            self.queue.append((n, 'v', i, w))
        if self.second:
            self.queue.append((n + 1, 'x', i, w / (n + 1)))

    def _flush(self, n):
        keep = []
        for q in self.queue:
            if q[0] <= n:
                self._kid(*q)
            else:
                keep.append(q)
        self.queue = keep

    def _multisets(self, total, nk):
        """sorted tuples of kid indices with orders adding up to total"""
        def rec(rest, start, pre):
            if rest == 0:
                yield tuple(pre)
                return
            for i in range(start, nk):
                o = self.kids[i][0]
                if o <= rest:
                    yield from rec(rest - o, i, pre + [i])
        yield from rec(total, 0, [])


@lru_cache(None)
def trees(order, second, times, novel=False):
    # kids of order n appear only after level n is finished, so that lower levels are complete
    return Trees(order, second, times, novel)


# conversion ------------------------------------------------------------------
def substH(values, H, keep=()):
    """express all values by the step size symbol H!. values: list of Poly"""
    if H is ZERO:
        raise NotSeries('the step has zero length', True)
    best = None
    for m, k in H.terms.items():
        cand = [a for a, e in m if e == 1 and not (ATOMS[a].info and ATOMS[a].info.get('sign')) and a not in keep]
        rest = [a for a, e in m if not (ATOMS[a].info and ATOMS[a].info.get('sign'))]
        if len(cand) == 1 and len(rest) == 1:
            a = cand[0]
            if sum(1 for m2 in H.terms for b, e in m2 if b == a) == 1:
                pr = {'ite': 3, 'mu': 2, 'op': 1}.get(ATOMS[a].kind, 0)
                if best is None or pr > best[0]:
                    best = (pr, a, m, k)
    if best is None:
        raise NotSeries('step size is not a simple value')
    _, a, m, k = best
    co = mk({tuple((b, e) for b, e in m if b != a): k})       # rational times signs
    rest = add(H, neg(mul(co, of_atom(ATOMS[a]))))
    new = mul(add(HS, neg(rest)), inv(co))
    memo = {}

    def f(at):
        return new if at.id == a else None
    return [subst(v, f, memo, 1 << a) for v in values], f


def split_mono(m):
    """monomial -> (power of H, power of theta, other factors)"""
    h = th = 0
    rest = []
    for a, e in m:
        if a == HID:
            h = e
        elif a == TID:
            th = e
        else:
            rest.append((a, e))
    return h, th, tuple(rest)


class Series:
    """elementary weights of values relative to base point (t0, y0) and step size H!"""

    def __init__(self, t0, y0, second=False, fname='F', order=5, solver=None, novel=False):
        self.novel = novel
        # t0: Poly, y0: list of Poly (1, or 2 segments x, v)
        self.t0, self.y0, self.second, self.fname, self.order = t0, y0, second, fname, order
        self.base = [the_atom(y) for y in y0]
        if any(b is None for b in self.base):
            raise NotSeries('the old solution is not a single value')
        self.stages = {}        # atom id -> dict(c=, arg=[lin per segment])
        self.times = False
        self.solver = solver    # function(atom) -> linear form or None for other atoms
        self.weights = {}
        self.extra = {}

    # linear forms: {(h power, theta power, item): Fraction}; item: ('base', seg) / ('app', atom id) / ('one',)
    def lin(self, v, seg=None, what='value'):
        out = {}
        for m, k in v.terms.items():
            h, th, rest = split_mono(m)
            if not rest:
                item = ('one',)
            elif len(rest) == 1 and rest[0][1] == 1:
                item = self.item(ATOMS[rest[0][0]], what)
            else:
                sub = self.solver(rest) if self.solver else None
                if sub is None:
                    raise NotSeries(f'{what} contains the term {show(mk({m: k}), 2)[:120]}', self.definite(rest), rest)
                item = sub
            if isinstance(item, dict):
                for (h2, th2, it), k2 in item.items():
                    key = (h + h2, th + th2, it)
                    out[key] = out.get(key, 0) + k * k2
            else:
                key = (h, th, item)
                out[key] = out.get(key, 0) + k
        return {a: b for a, b in out.items() if b}

    def definite(self, rest):
        """every factor is an evaluation of f or part of the old state: certainly not a linear combination"""
        for a, e in rest:
            at = ATOMS[a]
            if at in self.base or at.kind == 'app' and at.args[0] == self.fname:
                continue
            return False
        return True

    def item(self, at, what):
        for s, b in enumerate(self.base):
            if at is b:
                return ('base', s)
        if at.kind == 'app' and at.args[0] == self.fname:
            self.stage(at)
            return ('app', at.id)
        if self.solver:
            r = self.solver(((at.id, 1),))
            if r is not None:
                return r
        raise NotSeries(f'{what} depends on {show_atom(at, 1)[:120]}', False, ((at.id, 1),))

    def stage(self, at):
        if at.id in self.stages:
            return
        _, t, ys, k, ex = at.args
        if ex:
            raise NotSeries('f is called with further arguments')
        self.stages[at.id] = None
        d = add(t, neg(self.t0))
        c = None
        if not d.terms:
            c = Fr(0)
        elif len(d.terms) == 1:
            (m, kk), = d.terms.items()
            if m == ((HID, 1),):
                c = kk
        if c is None:
            hs = {a for m in d.terms for a, e in m}
            known = all(ATOMS[a].kind == 'sym' and (a == HID or (ATOMS[a].info or {}).get('sign')) for a in hs)
            raise NotSeries(f'f is evaluated at time t + {show(d, 1)[:80]}', known)
        arg = []
        for s, y in enumerate(ys):
            l = self.lin(y, s, 'a stage value')
            one = {x: v for x, v in l.items() if x[0] == 0}
            arg.append(l)
            if one != {(0, 0, ('base', s)): 1}:
                b = dict(one)
                if abs(float(b.get((0, 0, ('base', s)), 0)) - 1) > 1e-12 or len(b) != 1:
                    raise NotSeries('the state in a stage is not the old solution plus a multiple of the step size', True)
        self.stages[at.id] = dict(c=c, arg=arg)

    # weights --------------------------------------------------------------------
    def solve(self):
        """elementary weights of H*f for every stage, per f-tree"""
        st = self.stages
        times = False
        # x-part of first order: row sum condition
        for i, s in st.items():
            c = float(s['c'])
            if not self.second:
                r = sum(float(k) for (h, th, it), k in s['arg'][0].items() if h == 1 and it[0] == 'app')
                ok = all(h == 1 for (h, th, it) in s['arg'][0] if h) and all(it[0] != 'one' for _, _, it in s['arg'][0])
            else:
                r = sum(float(k) for (h, th, it), k in s['arg'][0].items() if h == 1 and it == ('base', 1))
                ok = True
            if not ok or abs(r - c) > 1e-11 * max(1, abs(c)):
                times = True
        self.T = T = trees(self.order, self.second, times, self.novel)
        self.times = times
        n = len(T.nodes)
        W = {i: [0.0] * n for i in st}
        coef = {}
        for i, s in st.items():
            rows = []
            for sgm, l in enumerate(s['arg']):
                row = []
                for (h, th, it), k in l.items():
                    if th:
                        raise NotSeries('a stage depends on the time of evaluation')
                    if h == 0:
                        continue
                    row.append((h, it, float(k)))
                rows.append(row)
            coef[i] = rows
        self.coef = coef
        kidw = {i: [None] * len(T.kids) for i in st}
        for x, (o, ch) in enumerate(T.nodes):
            for i in st:
                w = 1.0
                for c in ch:
                    v = kidw[i][c]
                    if v is None:
                        v = kidw[i][c] = self.kid(i, c, W)
                    w *= v
                    if not w:
                        break
                W[i][x] = w
        self.W = W
        return T

    def kid(self, i, c, W):
        """weight of child c in the state argument of stage i"""
        n, kind, ref = self.T.kids[c]
        s = self.stages[i]
        if kind == 't':
            return float(s['c'])
        if not self.second:
            return sum(k * W[it[1]][ref] for h, it, k in self.coef[i][0] if h == 1 and it[0] == 'app')
        if kind == 'v':
            return sum(k * W[it[1]][ref] for h, it, k in self.coef[i][1] if h == 1 and it[0] == 'app')
        if kind == 'l':
            return sum(k for h, it, k in self.coef[i][0] if h == 1 and it == ('base', 1))
        return sum(k * W[it[1]][ref] for h, it, k in self.coef[i][0] if h == 2 and it[0] == 'app')

    def check_scaling(self, l, seg, what):
        """powers of H must match the kind of term"""
        for (h, th, it), k in l.items():
            if abs(float(k)) < 1e-13:
                continue
            if it[0] == 'base':
                want = 0 if it[1] == seg else 1 if (seg, it[1]) == (0, 1) else None
            elif it[0] == 'app':
                want = 1 if (not self.second or seg == 1) else 2
            else:
                raise NotSeries(f'{what} contains a term independent of the state', True)
            if h != want:
                raise NotSeries(f'{what} contains a {"state" if it[0] == "base" else "derivative"} term with step size power {h} '
                                f'instead of {want}', True)

    def value(self, l, seg=0):
        """per theta power: base coefficient(s) and list of weights per f-tree"""
        out = {}
        for (h, th, it), k in l.items():
            o = out.setdefault(th, dict(base={}, w=None))
            k = float(k)
            if it[0] == 'base':
                o['base'][it[1]] = o['base'].get(it[1], 0) + k
            else:
                if o['w'] is None:
                    o['w'] = [0.0] * len(self.T.nodes)
                Wi = self.W[it[1]]
                w = o['w']
                for x in range(len(w)):
                    w[x] += k * Wi[x]
        return out

    def prepare(self, values, what='value'):
        """linear forms of values [(Poly, segment)]; collects the stages"""
        ls = [self.lin(v, s, what) for v, s in values]
        for l, (v, s) in zip(ls, values):
            self.check_scaling(l, s, what)
        for i, sg in self.stages.items():
            for s, l in enumerate(sg['arg']):
                self.check_scaling(l, s, 'a stage value')
        return ls

    def defect(self, l, seg, order):
        """largest deviation from the exact solution per order 0..order: list"""
        T = self.T
        v = self.value(l, seg)
        mx = [0.0] * (order + 1)
        exp = 2 if self.second and seg == 0 else 1
        # base
        pw = set(v)
        for th in pw:
            o = v[th]
            b = o['base']
            want = {seg: 1.0} if th == 0 else {}
            if self.second and seg == 0:
                pass
            for s in (0, 1):
                e = (1.0 if s == seg and th == 0 else 0.0)
                lev = 0
                if self.second and seg == 0 and s == 1:
                    e = None
                if e is not None:
                    mx[lev] = max(mx[lev], abs(b.get(s, 0.0) - e))
        if 0 not in v:
            mx[0] = 1.0
        thetas = any(th for th in v)
        self_theta = thetas
        # velocity leaf
        if self.second and seg == 0 and order >= 1:
            for th in pw | {1 if self.theta else 0}:
                b = v.get(th, {'base': {}})['base'].get(1, 0.0)
                e = 1.0 if th == (1 if self.theta else 0) else 0.0
                mx[1] = max(mx[1], abs(b - e))
        for x, (n, ch) in enumerate(T.nodes):
            lev = n + exp - 1
            if lev > order:
                continue
            e = T.exact[x] if exp == 1 else T.exact[x] / (n + 1)
            wp = lev if self.theta else 0
            for th in pw | {wp}:
                o = v.get(th)
                w = o['w'][x] if o and o['w'] is not None else 0.0
                mx[lev] = max(mx[lev], abs(w - (e if th == wp else 0.0)))
        return mx

    theta = False

    def size(self, l, seg, order):
        """largest weight per order 0..order (for error estimates)"""
        T = self.T
        v = self.value(l, seg)
        mx = [0.0] * (order + 1)
        exp = 2 if self.second and seg == 0 else 1
        for th, o in v.items():
            for s, b in o['base'].items():
                lev = 1 if (self.second and seg == 0 and s == 1) else 0
                mx[lev] = max(mx[lev], abs(b))
            if o['w'] is not None:
                for x, (n, ch) in enumerate(T.nodes):
                    lev = n + exp - 1
                    if lev <= order:
                        mx[lev] = max(mx[lev], abs(o['w'][x]))
        return mx
