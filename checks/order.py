"""Accepting paths of a step as series in the step size."""
from sa.bseries import *
from sa.leaf import cases, active, vectorial
from .common import *


class FirstIteration(Exception):
    """a stage was accepted after its first iteration: covered by the general case"""


def tol(sc):
    return 1e-9 * max(1.0, sc)


def accepted(X, extra=None):
    """yield (state index, head state, outcome, conditions, t0, y0 cells, H, new y cells, extra values) for every case of every accepting path"""
    for k, h, o in X.paths(few=X.cls in IMPL):
        if o.kind not in ('ok', 'any'):
            continue
        t0, t1 = X.attr(h, 't'), X.attr(o.st, 't')
        y0, y1 = X.cells(h, X.attr(h, 'y')), X.cells(o.st, X.attr(o.st, 'y'))
        if y0 is None or y1 is None or not isinstance(t1, Poly):
            raise AnalysisError('published state is not an array')
        y0 = [X.lib.topoly(y0[p]) for p in sorted(y0)]
        y1 = [X.lib.topoly(y1[p]) for p in sorted(y1)]
        H = add(t1, neg(t0))
        ex = list(extra(X, h, o)) if extra else []
        for conds, vals, st in cases([H] + y1 + ex, o.st, scalar=(0,),
                                     prune=first_iteration if X.cls in IMPL else None):
            yield k, h, o, conds, t0, y0, vals[0], vals[1:1 + len(y1)], vals[1 + len(y1):]


class Implicit:
    """stage equations at convergence: every Newton correction solve(A, r) is zero and hence r = 0 defines the iterate"""

    def __init__(self, values, slopes):
        self.eq = {}
        self.slopes = slopes           # mu id -> atom of f at the old point
        self.explicit = 0
        self.S = None
        pend = []
        for a in active(values).values():
            if a.kind == 'op' and a.args[0] == 'solve':
                r = a.args[-1]
                pend.append((r, {b.id for b in poly_atoms(r) if b.kind == 'mu' and b.id not in slopes and ((b.id, 1),) in r.terms}))
        done = True
        while pend and done:
            done = False
            for i, (r, c) in enumerate(pend):
                c = c - set(self.eq)
                if len(c) == 1:
                    (b,) = c
                    self.eq[b] = add(scale(r, -1 / r.terms[((b, 1),)]), of_atom(ATOMS[b]))
                    del pend[i]
                    done = True
                    break
        self.explicit = len(pend)

    def __call__(self, rest):
        ats = [(ATOMS[a], e) for a, e in rest]
        for a, e in ats:
            if a.kind == 'op' and a.args[0] == 'solve':
                return {}
        if len(ats) == 1 and ats[0][1] == 1:
            a = ats[0][0]
            if a.id in self.slopes:
                self.S.stage(self.slopes[a.id])
                return ('app', self.slopes[a.id].id)
            if a.id in self.eq:
                return self.S.lin(self.eq[a.id], None, 'a stage equation')
        return None


def first_iteration(vals):
    """some stage is the result of the very first Newton correction of an explicit prediction"""
    for a in active(vals, False).values():
        if a.kind == 'op' and a.args[0] == 'solve':
            r = a.args[-1]
            if not any(b.kind in ('mu', 'ite') for b in poly_atoms(r) if ((b.id, 1),) in r.terms):
                return True
    return False


def slope_candidates(X):
    """attributes that hold f(t, y) in every initial state"""
    out = None
    for o in X.ok:
        t, y = X.attr(o.st, 't'), X.cells(o.st, X.attr(o.st, 'y'))
        ys = tuple(X.lib.topoly(y[p]) for p in sorted(y))
        names = set()
        for n, v in o.st.o(X.inst.a).d.items():
            c = X.cells(o.st, v) if isinstance(v, Arr) else None
            if c is not None and len(c) == 1 and len(ys) == 1:
                (x,) = c.values()
                a = the_atom(x) if isinstance(x, Poly) else None
                if a is not None and a.kind == 'app' and a.args[1] is t and a.args[2] == ys:
                    names.add(n)
        out = names if out is None else out & names
    return out or set()


def slopes(X, h, names, t0, y0):
    """mu id of the attributes assumed to hold f(t, y) -> application of f"""
    out = {}
    for n in names:
        v = X.attr(h, n)
        c = X.cells(h, v) if isinstance(v, Arr) else None
        if c is not None and len(c) == 1:
            (x,) = c.values()
            a = the_atom(x)
            if a is not None and a.kind == 'mu' and len(y0) == 1:
                out[a.id] = n
    return out


def fapp(t, ys, k=0):
    a = atom('app', 'F', t, tuple(ys), num(k), ())
    if a.info is None:
        a.info = Info({'axis': True, 'nan': True})
    return a


def series(X, h, t0, y0, H, ys, order, more=(), solver=None, names=None):
    """express by H! and build the series; more: further values (Poly, segment)"""
    vals = [t0] + list(y0) + list(ys) + [m for m, s in more]
    new, f = substH(vals, H)
    n = len(y0)
    if X.cls in IMPL:
        sl = slopes(X, h, names if names is not None else slope_candidates(X), t0, y0)
        solver = Implicit(new, {i: fapp(new[0], new[1:1 + n]) for i in sl})
        if solver.explicit:
            raise FirstIteration
    S = Series(new[0], new[1:1 + n], second=n == 2, order=order, solver=solver, novel=X.cls == 'MR6NN')
    if X.cls in IMPL:
        solver.S = S
    S.subst = f
    ls = S.prepare([(v, s) for s, v in enumerate(new[1 + n:1 + n + len(ys)])])
    S.more = [S.lin(v, s) for v, (m, s) in zip(new[1 + n + len(ys):], more)]
    S.solve()
    return S, ls, H


def scale_of(S):
    m = 1.0
    for rows in S.coef.values():
        for row in rows:
            for h, it, k in row:
                m = max(m, abs(k))
    return m


def reached(d, sc):
    """highest order up to which all defects vanish"""
    got = -1
    for i, x in enumerate(d):
        if x > tol(sc):
            break
        got = i
    return got
