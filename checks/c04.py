"""C04: implicit methods have their documented L-/A-stability."""
from .order import *
from .c02 import norm_facts, unscale, scale_parts, unfilter, slope_names, cellist

LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation to stage equations, exact stability function, Sturm sequence of the E-polynomial'
RULE = ('every accepting path of an implicit step is expressed by its stage equations f_i = f(t + c_i H, y + H sum a_ij f_j) (a stage that is accepted '
        'after iterations satisfies its equation at convergence, no coefficient table is read). For f = lambda*y this gives the stability function R = P/Q, computed '
        'exactly from the coefficients in use. A-stability: the poles are positive and |Q(iy)|^2 - |P(iy)|^2 has no negative values (Sturm '
        'sequence). L-stability: A-stability and deg P < deg Q. The same is decided for the solution minus the tested error estimate, where the embedded '
        'method is documented to be stable.')
ASSUME = ['stage equations are solved exactly', 'numpy calls behave as modelled in sa/libnp.py']

# method -> (main, embedded) documented stability
DOC = {'TRBDF2': ('L', None), 'TRX2': ('A', None), 'KC3I': ('L', 'L'), 'KC4I': ('L', 'L'), 'KC4Ia': ('L', 'L'), 'Kv3I': ('L', 'A')}


def jobs(tier):
    return [(c, 'job', dict(cls=c), 160 if tier == 'quick' else 400) for c in ('KC4Ia', 'KC4I', 'KC3I', 'Kv3I', 'TRBDF2', 'TRX2')]


# exact algebra ---------------------------------------------------------------
def det(M):
    """determinant of a square matrix of Fractions"""
    M = [list(x) for x in M]
    n = len(M)
    d = Fr(1)
    for i in range(n):
        p = next((j for j in range(i, n) if M[j][i]), None)
        if p is None:
            return Fr(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            d = -d
        d *= M[i][i]
        for j in range(i + 1, n):
            if M[j][i]:
                f = M[j][i] / M[i][i]
                for k in range(i, n):
                    M[j][k] -= f * M[i][k]
    return d


def interpolate(vals):
    """coefficients of the polynomial with p(k) = vals[k]"""
    n = len(vals)
    out = [Fr(0)] * n
    for k in range(n):
        c = [Fr(1)]
        w = Fr(1)
        for j in range(n):
            if j != k:
                c = [(c[i - 1] if i else 0) - j * (c[i] if i < len(c) else 0) for i in range(len(c) + 1)]
                w *= k - j
        for i in range(n):
            out[i] += vals[k] * c[i] / w
    return out


def clean(p, rel=Fr(1, 10**11)):
    """remove coefficients that are rounding errors of the tabulated coefficients"""
    m = max([abs(c) for c in p] + [Fr(0)])
    p = [c if abs(c) > rel * max(m, Fr(1, 10**3)) else Fr(0) for c in p]
    while p and not p[-1]:
        p.pop()
    return p


def rational(stages, form):
    """P, Q with value = P(z)/Q(z) y0 for f = lambda y, z = H lambda"""
    ids = list(stages)
    n = len(ids)
    A = [[Fr(0)] * n for _ in ids]
    e = []

    def read(l, row):
        b = Fr(0)
        for (h, th, it), k in l.items():
            k = Fr(k)
            if th or it[0] == 'one':
                raise NotSeries('not a linear one-step form')
            if it[0] == 'base':
                b += k
            else:
                row[ids.index(it[1])] += k
        return b
    for i, s in enumerate(ids):
        e.append(read(stages[s]['arg'][0], A[i]))
    w = [Fr(0)] * n
    b0 = read(form, w)
    P, Q = [], []
    for z in range(n + 1):
        M = [[(1 if i == j else 0) - z * A[i][j] for j in range(n)] for i in range(n)]
        q = det(M)
        # b0 + z w (I - zA)^-1 e = det(bordered)/det(M)
        B = [M[i] + [e[i]] for i in range(n)] + [[-z * x for x in w] + [b0]]
        P.append(det(B))
        Q.append(q)
    return clean(interpolate(P)), clean(interpolate(Q)), A


def sq_imag(p):
    """|p(iy)|^2 as a polynomial in x = y^2"""
    re, im = {}, {}
    for k, c in enumerate(p):
        if k % 2 == 0:
            re[k // 2] = c * (-1) ** (k // 2)
        else:
            im[k // 2] = c * (-1) ** (k // 2)
    out = [Fr(0)] * (len(p) + 1)
    for d, sh in ((re, 0), (im, 1)):
        for i, a in d.items():
            for j, b in d.items():
                out[i + j + sh] += a * b
    return out


def ev(p, x):
    s = Fr(0)
    for c in reversed(p):
        s = s * x + c
    return s


def deriv(p):
    return [k * c for k, c in enumerate(p)][1:]


def rem(a, b):
    a = list(a)
    while len(a) >= len(b):
        f = a[-1] / b[-1]
        for i in range(len(b)):
            a[len(a) - len(b) + i] -= f * b[i]
        a.pop()
    while a and not a[-1]:
        a.pop()
    return a


def positive_roots(p):
    """number of distinct roots of p in (0, infinity), p(0) != 0"""
    seq = [p, deriv(p)]
    while seq[-1]:
        r = [-c for c in rem(seq[-2], seq[-1])]
        if not r:
            break
        seq.append(r)

    def changes(vals):
        v = [x for x in vals if x]
        return sum(1 for x, y in zip(v, v[1:]) if x * y < 0)
    seq = [s for s in seq if s]
    return changes([s[0] for s in seq]) - changes([s[-1] for s in seq])


def nonnegative(E):
    """(holds, witness x) for a polynomial in x >= 0"""
    E = clean(E)
    if not E:
        return True, None
    k = next(i for i, c in enumerate(E) if c)
    E = E[k:]
    if E[0] > 0 and E[-1] > 0 and positive_roots(E) == 0:
        return True, None
    # look for a negative value
    worst, at = Fr(0), None
    for j in range(-400, 401):
        x = Fr(10) ** (j // 20) * Fr(round(10 ** ((j % 20) / 20 + 6)), 10 ** 6)
        v = ev(E, x) / sum(abs(c) * x ** i for i, c in enumerate(E))
        if v < worst:
            worst, at = v, x
    if worst < Fr(-1, 10**7):
        return False, at
    return None, None


def roots_positive(A, Q):
    n = len(A)
    order = triangular(A)
    if order is None:
        return None
    return all(A[i][i] >= 0 for i in range(n))


def triangular(A):
    left = set(range(len(A)))
    out = []
    while left:
        i = next((i for i in left if all(not A[i][j] or j == i for j in left)), None)
        if i is None:
            return None
        left.remove(i)
        out.append(i)
    return out


def verdict(P, Q, A, kind):
    """(True/False/None, text)"""
    p = roots_positive(A, Q)
    if p is None:
        return None, 'stages are coupled'
    if not p:
        return False, 'the stability function has a pole in the left half plane (negative diagonal coefficient)'
    a, b = sq_imag(Q), sq_imag(P)
    n = max(len(a), len(b))
    E = [(a[i] if i < len(a) else 0) - (b[i] if i < len(b) else 0) for i in range(n)]
    # remove what is lost to rounding in the difference
    E = [c if abs(c) > Fr(1, 10**10) * max(abs(a[i]) if i < len(a) else 0, abs(b[i]) if i < len(b) else 0, Fr(1, 10**9)) else Fr(0)
         for i, c in enumerate(E)]
    ok, x = nonnegative(E)
    if ok is False:
        y = float(x) ** 0.5
        return False, f'|R(iy)| > 1 at y = {y:.4g}'
    if kind == 'L' and len(P) >= len(Q):
        if len(P) > len(Q):
            return False, 'R(z) is unbounded for z to infinity'
        v = float(P[-1] / Q[-1])
        if abs(v) > 1e-9:
            return False, f'R(z) tends to {v:.4g}, not to 0, for z to infinity'
    if kind == 'A' and len(P) > len(Q):
        return False, 'R(z) is unbounded for z to infinity'
    if ok is None:
        return None, 'sign of the E-polynomial not decided'
    return True, ''


def job(r, cls, **cfg):
    X = Explore(cls, dense=False, **cfg)
    names = slope_names(X)
    main, emb = DOC[cls]
    seen = set()
    for k, h, o in X.paths(few=True):
        if o.kind not in ('ok', 'any'):
            continue
        r.count('accepting paths')
        t0, t1 = X.attr(h, 't'), X.attr(o.st, 't')
        y0, y1 = cellist(X, h, X.attr(h, 'y')), cellist(X, o.st, X.attr(o.st, 'y'))
        H = add(t1, neg(t0))
        facts, odd = norm_facts(o.st)
        Es = []
        for bound, xs in facts:
            us = [unscale(x) for x in xs]
            if len(us) == 1 and us[0] is not None:
                Es.append(unfilter(us[0][0]))
        vals = [H] + list(y1) + Es
        key = tuple(vals)
        if key in seen:
            continue
        seen.add(key)
        try:
            cs = cases(vals, o.st, scalar=(0,), prune=first_iteration, limit=200)
            for conds, v, s in cs:
                try:
                    S, ls, _ = series(X, h, t0, y0, v[0], v[1:2], 1, more=[(e, 0) for e in v[2:]], names=names)
                except FirstIteration:
                    continue
                judge(r, cls, S, ls[0], S.more, main, emb, k)
        except OverflowError:
            r.open('too many cases')
        except NotSeries as e:
            r.open(str(e)[:150])
    if not r.info.get('stability functions'):
        r.open('no stability function found')


def judge(r, cls, S, l, more, main, emb, k):
    where = f'{METHODS[cls]}.{cls}'
    P, Q, A = rational(S.stages, l)
    r.count('stability functions')
    ok, why = verdict(P, Q, A, main)
    if ok:
        r.good(f'{cls} solution is {main}-stable: degree {len(P) - 1}/{len(Q) - 1}, E-polynomial without sign change')
    elif ok is False:
        r.bad(f'{cls} solution', f'the solution published by {cls} is not {main}-stable: {why}', where)
    else:
        r.open(f'solution: {why}')
    if emb is None:
        return
    good = bad = None
    for e in more:
        f = dict(l)
        for t, c in e.items():
            f[t] = f.get(t, 0) - c
        g = dict(l)
        for t, c in e.items():
            g[t] = g.get(t, 0) + c
        for x in (f, g):
            P, Q, A = rational(S.stages, x)
            r.count('stability functions')
            ok, why = verdict(P, Q, A, emb)
            if ok:
                good = True
                break
            bad = why if ok is False and bad is None else bad
    if good:
        r.good(f'{cls} embedded solution is {emb}-stable')
    elif bad and more:
        r.bad(f'{cls} embedded', f'the embedded solution of {cls} (solution minus tested error estimate) is not {emb}-stable: {bad}', where)
    else:
        r.open('embedded solution not decided')
