"""C03: dense output is accurate and continuous."""
from .common import *
from .order import *
from sa.leaf import active
from sa.iv import Ctx
from sa.ranges import refine
from .c05 import cellist
from .c01 import used

LEVEL = 'other'
TECHNIQUE = 'value numbering by abstract interpretation of dense_output and of the interpolants; order conditions of continuous B-/P-series'
RULE = ('dense_output() is executed abstractly after every accepting path, and the returned interpolant is evaluated at t_old, t, and at '
        't_old + theta*(t - t_old) with symbolic theta. The value numbers are polynomials in theta, the step size and evaluations of f. '
        'End values must equal the old and new solution; the derivative with respect to theta at both ends must equal the step size times f '
        'there where C1 is documented; the elementary weights must equal theta^p times the exact ones for all rooted trees up to the documented '
        'order. An array of times must give the values of the single times.')
ASSUME = ['floating point coefficients are read as the decimal numbers written in the source', 'numpy/scipy calls behave as modelled',
          'scipy CubicHermiteSpline interpolates values and slopes on each interval']

# documented (or by construction implied) order of the interpolant, continuous first derivative
DOC = {'Me4': (3, True), 'Ts5': (4, True), 'BS5': (5, True), 'BS5/best': (5, True), 'BS5/free': (4, True), 'CK5': (4, True),
       'CKdisc': (4, True), 'Pr7': (6, True), 'Pr8': (7, True), 'Pr9': (8, True), 'CFMR7osc': (5, True),
       'Fi4N': (4, True), 'Fi5N': (4, True), 'Fi5N/interpolant-1': (5, False), 'Fi5N/interpolant-2': (4, False),
       'Fi5N/interpolant-3': (4, True), 'Mu5Nmb': (4, True), 'Mu5Nmb/free': (4, True), 'MR6NN': (6, True),
       'TRBDF2': (2, True), 'TRX2': (2, True), 'KC3I': (3, False), 'KC3I/C1': (3, True), 'KC4I': (4, False), 'KC4I/C1': (4, True),
       'KC4Ia': (4, False), 'KC4Ia/C1': (4, True), 'Kv3I': (3, False), 'Kv3I/C1': (3, True)}
VEL = {'MR6NN': 5}         # velocity interpolant: derivative of the sixth order one


def jobs(tier):
    out = []
    for c in ('KC4Ia', 'KC4I', 'KC3I', 'Kv3I', 'TRBDF2', 'TRX2'):
        out.append((c, 'job', dict(cls=c, doc=c), 400))
        for lab, kw in VARIANTS.get(c, []):
            out.append((f'{c}/{lab}', 'job', dict(cls=c, doc=f'{c}/{lab}', **kw), 400))
    for c in ('Pr9', 'Pr8') + tuple(x for x in EXPL if x not in ('Pr8', 'Pr9')):
        out.append((c, 'job', dict(cls=c, doc=c), 200))
        for lab, kw in VARIANTS.get(c, []):
            out.append((f'{c}/{lab}', 'job', dict(cls=c, doc=f'{c}/{lab}', **kw), 200))
    return out


M = sym('m', pos=True, int=True, lo=2)


def at(x, v):
    """value (or condition) at theta = v"""
    return subst(x, lambda a: v if a.id == TID else None, {}, 1 << TID)


def job(r, cls, doc, **cfg):
    X = Explore(cls, dense=False, **cfg)
    order, c1 = DOC[doc]
    seen = set()
    names = slope_candidates(X) if cls in IMPL else None
    if cls in ('TRBDF2', 'TRX2'):
        Ctx.tab = refine([X.attr(o.st, 't') for k, h, o in X.paths(few=True) if o.kind in ('ok', 'any')], False)
    for k, h, o in X.paths(few=cls in IMPL):
        if o.kind not in ('ok', 'any'):
            continue
        t0, t1 = X.attr(h, 't'), X.attr(o.st, 't')
        y0, y1 = cellist(X, h, X.attr(h, 'y')), cellist(X, o.st, X.attr(o.st, 'y'))
        if y0 is None or y1 is None or not isinstance(t1, Poly):
            r.open('published state is not an array')
            continue
        H = add(t1, neg(t0))
        for d in X.R.call_method(X.inst, 'dense_output', [], fresh_log(o.st)):
            if d.kind != 'ok':
                r.bad(f'{doc} dense_output raises {d.exc.name}', f'dense_output() raises {d.exc.name} after an accepted step', site(d.site))
                continue
            t = add(t0, mul(TH, H))
            one = X.call_value(d.val, [t], d.st)
            new = 0
            for e in one:
                if e.kind != 'ok':
                    r.bad(f'{doc} interpolant raises {e.exc.name}', f'evaluating the interpolant raises {e.exc.name}', site(e.site))
                    continue
                u = cellist(X, e.st, e.val) if isinstance(e.val, Arr) else None
                if u is None or len(u) != len(y0):
                    r.open('interpolant does not return an array of the shape of y')
                    continue
                key = (H, tuple(u), tuple(y1))
                if key in seen:
                    continue
                seen.add(key)
                new += 1
                judge(r, X, doc, k, h, e.st, t0, y0, H, y1, u, order, c1, names)
            if new:
                many(r, X, doc, t, d, one)
    if not seen:
        r.open('no dense output found')


def many(r, X, doc, t, d, one):
    """an array of times gives the values of the single times"""
    st = d.st.fork()
    ta = X.lib.mkarr(st, ((M,),), {(0,): t}, orig=frozenset(['user:t']))
    res = X.call_value(d.val, [ta], st)
    if len(one) != 1 or len(res) != 1 or one[0].kind != 'ok':
        r.open('evaluation with an array of times: several outcomes')
        return
    e = res[0]
    if e.kind != 'ok':
        r.bad(f'{doc} array evaluation raises {e.exc.name}', f'evaluating the interpolant at an array of times raises {e.exc.name}', site(e.site))
        return
    a, b = X.cells(one[0].st, one[0].val), X.cells(e.st, e.val) if isinstance(e.val, Arr) else None
    sh = X.lib.asarr(e.st, e.val)[0] if b is not None else None
    if b is None or sh is None or any(x is None for x in sh):
        r.open('evaluation with an array of times is not modelled')
        return
    if len(sh) != 2 or len(sh[1]) != 1 or sh[1][0] is not M:
        r.bad(f'{doc} array evaluation shape', f'evaluating the interpolant at m times does not give an array of shape (n, m)', METHODS[X.cls])
        return
    for p in sorted(a):
        x, y = X.lib.topoly(a[p]), b.get((p[0], 0))
        if not isinstance(y, Poly):
            r.open('evaluation with an array of times is not modelled')
            return
        if x is y or close(x, y):
            continue
        if all(known(z) for z in (x, y)):
            r.bad(f'{doc} array evaluation', 'evaluating the interpolant at an array of times gives other values than evaluating each time '
                  'separately', METHODS[X.cls])
        else:
            r.open('evaluation with an array of times: not comparable')
        return
    r.good('array of times: same values as single times')


def known(x):
    return all(a.kind in ('sym', 'app', 'ite', 'mu', 'op') and not (a.info and a.info.get('unk')) for a in active([x]).values())


def close(x, y):
    d = add(x, neg(y))
    m = max([abs(float(k)) for k in x.terms.values()] + [1])
    return all(abs(float(k)) < 1e-11 * m for k in d.terms.values())


def judge(r, X, doc, k, h, st, t0, y0, H, y1, u, order, c1, names):
    cls = X.cls
    try:
        cs = cases([H] + y1 + u, st, scalar=(0,), prune=first_iteration if cls in IMPL else None, limit=200)
    except OverflowError:
        r.open('too many cases')
        return
    n = len(y1)
    where = f'extensisq/{METHODS[cls]}.py:{cls}'
    for conds, vals, s in cs:
        H2, y2, u2 = vals[0], vals[1:1 + n], vals[1 + n:]
        here = [inside(conds, s, v) for v in (ZERO, ONE)]
        try:
            more = [(x, i) for i, x in enumerate(u2)]
            S, ls, _ = series(X, h, t0, y0, H2, y2, order, more=more, names=names)
        except FirstIteration:
            r.count('first iteration cases')
            continue
        except NotSeries as e:
            if e.definite:
                r.bad(f'{doc} interpolant: {e}', f'the interpolant is not consistent: {e}', where)
            else:
                r.open(f'state {k}: {e}')
            continue
        S.theta = True
        sc = scale_of(S)
        T = Classes(S)
        r.count('trees', len(S.T.nodes))
        r.count('interpolants')
        for i, (l, m) in enumerate(zip(ls, S.more)):
            nm = ('position', 'velocity')[i] if S.second else 'solution'
            need = order
            if cls == 'CKdisc':               # fallback formulas use 2 and 4 evaluations
                n1 = len(used(S, l))
                need = 2 if n1 <= 2 else 3 if n1 <= 4 else order
            if i:
                need = VEL.get(cls, need)
            d = S.defect(m, i, order)
            got = reached(d, sc)
            if got < need:
                bad = next(j for j, x in enumerate(d) if x > tol(sc))
                r.bad(f'{doc} order {got} of {nm}', f'the interpolant of {doc} ({nm}) satisfies the order conditions inside the step up to '
                      f'order {got} only (documented {need}); largest defect at order {bad}: {d[bad]:.3g}', where)
            else:
                r.good(f'state {k}: {nm}, order {got} for all theta on {len(S.T.nodes)} trees')
            # ends
            v0 = T.sums({(hp, it): kk for (hp, th, it), kk in m.items() if th == 0})
            v1 = T.sums(m, lambda th: 1)
            if here[0]:
                e0 = T.diff(v0, T.sums({(0, ('base', i)): 1}))
                if e0 > tol(sc):
                    r.bad(f'{doc} start', f'the interpolant of {doc} does not return the old {nm} at the beginning of the step ({e0:.3g})', where)
            if here[1] and doc != 'Fi5N/interpolant-1':
                e1 = T.diff(v1, T.sums(l, lambda th: 1))
                if e1 > tol(sc):
                    r.bad(f'{doc} end', f'the interpolant of {doc} does not return the new {nm} at the end of the step ({e1:.3g})', where)
            if here[0] is None or here[1] is None:
                r.open('piece of the interpolant not located')
            if not c1:
                continue
            # slopes: the derivative of theta*(...) against step size times the derivative of the solution
            s0 = T.sums({(hp, it): kk for (hp, th, it), kk in m.items() if th == 1})
            s1 = T.sums(m, lambda th: th)
            if S.second and i == 0:
                w0 = T.sums({(1, ('base', 1)): 1})
                w1 = T.sums({(hp + 1, th, it): kk for (hp, th, it), kk in ls[1].items()}, lambda th: 1)
            else:
                w0, w1 = T.slope(0, [{(0, 0, ('base', j)): 1} for j in range(n)]), \
                    T.slope(1, ls)
            for e, (a, b) in enumerate(((s0, w0), (s1, w1))):
                if not here[e]:
                    continue
                if b is None:
                    r.open(f'derivative at the {("start", "end")[e]} of the step does not occur')
                    continue
                x = T.diff(a, b)
                if x > 1e-8 * max(sc, 1):
                    r.bad(f'{doc} slope {("start", "end")[e]}', f'the time derivative of the interpolant of {doc} ({nm}) at the '
                          f'{("start", "end")[e]} of the step is not the derivative of the solution there ({x:.3g})', where)
                else:
                    r.good(f'state {k}: derivative of {nm} at the {("start", "end")[e]} of the step')


class Classes:
    """stages that are the same evaluation of f"""

    def __init__(self, S):
        self.S = S
        self.rep = {}
        reps = []
        for i in sorted(S.stages):
            g = S.stages[i]
            for j in reps:
                o = S.stages[j]
                if abs(float(g['c'] - o['c'])) < 1e-10 and all(self.same(x, y) for x, y in zip(g['arg'], o['arg'])):
                    self.rep[i] = j
                    break
            else:
                reps.append(i)
                self.rep[i] = i

    def same(self, x, y):
        return all(abs(float(x.get(q, 0) - y.get(q, 0))) < 1e-9 for q in set(x) | set(y))

    def sums(self, l, w=None):
        out = {}
        for key, k in l.items():
            hp, it = key[0], key[-1]
            if w is not None:
                k = k * w(key[1])
            if it[0] == 'app':
                it = ('app', self.rep[it[1]])
            out[(hp, it)] = out.get((hp, it), 0) + k
        return out

    def diff(self, a, b):
        return max([abs(float(a.get(x, 0) - b.get(x, 0))) for x in set(a) | set(b)] + [0])

    def slope(self, c, y):
        """H*f at time t_old + c*H and state y"""
        best = None
        for i in sorted(self.S.stages):
            g = self.S.stages[i]
            if abs(float(g['c']) - c) < 1e-10 and all(self.same(x, z) for x, z in zip(g['arg'], y)):
                best = i
                break
        if best is None:
            return None
        return {(1, ('app', self.rep[best])): 1}


def inside(conds, st, v):
    """does the piece selected by the conditions apply at theta = v (None unknown)"""
    for c, b in conds.items():
        if not any(a.id == TID for a in walk(c)):
            continue
        if c.kind not in ('lt', 'le') or not all(isinstance(x, Poly) for x in c.fargs):
            return None
        d = at(add(c.fargs[1], neg(c.fargs[0])), v)
        ctx = Ctx(st.facts)
        t = ctx.truth(c_cmp('<', ZERO, D))
        if t is not None:
            sg = num(1 if t else -1)
            d = subst(d, lambda a: sg if a is the_atom(D) else None, {}, 1 << the_atom(D).id)
        lo, hi, nan = ctx.iv(d)
        x = c.kind == 'le' if d is ZERO else True if lo >= 0 and hi > 0 else False if hi <= 0 and lo < 0 else None
        if x is None:
            return None
        if x != b:
            return False
    return True
