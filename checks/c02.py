"""C02: a step is accepted only on a genuine embedded error estimate of the new solution."""
from .common import *
from .order import *
from .c05 import slope_names, cellist

LEVEL = 'other'
TECHNIQUE = 'value numbering by abstract interpretation: path facts of accepting paths, order conditions of the tested error estimate'
RULE = ('every accepting path of a step of a one-step method is taken with all its branch facts. One fact must bound the root mean square over '
        'the components of a vector X by 1 (sum of squares over the number of components, any monotone form of it), where X = E/(a + r*max(|y_old|, '
        '|y_new|)) with a from atol, r from rtol and exactly the y_new that is published. The B-series (P-series) of E (before filtering '
        'with the iteration matrix for ESDIRK) must vanish on all trees up to the order of the lower order formula and must not at '
        'the next order, and every power of that norm in a retry step size (and in the standard controller of the first step) must '
        'have exponent -1/(next order). Estimates that only reject must be scaled by the tolerances as well and vanish up to order 1.')
ASSUME = ['numpy calls behave as modelled', 'scale factor and safety constants are not judged']

SEC = {'Me4': 3, 'Ts5': 4, 'BS5': 4, 'CK5': 4, 'CKdisc': 4, 'Pr7': 5, 'Pr8': 6, 'Pr9': 7, 'CFMR7osc': 5, 'Fi4N': 3, 'Fi5N': 4,
       'Mu5Nmb': 4, 'MR6NN': 4, 'TRBDF2': 2, 'TRX2': 2, 'KC3I': 2, 'KC4I': 3, 'KC4Ia': 3, 'Kv3I': 2}


def jobs(tier):
    return [(c, 'job', dict(cls=c), 400) for c in ('KC4Ia', 'KC4I', 'KC3I', 'Kv3I', 'TRBDF2', 'TRX2')] + \
           [(c, 'job', dict(cls=c), 200) for c in ('Pr9', 'Pr8') + tuple(x for x in EXPL if x not in ('Pr8', 'Pr9'))]


# reading norms -------------------------------------------------------------
def sizes_of(m):
    return [a for a, e in m if ATOMS[a].kind == 'sym' and ATOMS[a].args[0] == 'n']


def as_norm(p, depth=0):
    """p = c * RMS(X)^e -> (c, e, [X per segment]) or None"""
    if depth > 6 or len(p.terms) == 0:
        return None
    if len(p.terms) == 1:
        (m, k), = p.terms.items()
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'op' and at.args[0] == 'pow':
                r = as_norm(at.args[1], depth + 1)
                f = at.args[2].const
                if r is None or f is None:
                    return None
                rest = mk({tuple(x for x in m if x[0] != a): k})
                c = rest.const
                if c is None:
                    return None
                return float(c) * r[0] ** float(f * e), r[1] * float(f * e), r[2]
    # sum of n^-1 dot terms raised to a common power (single term), or a plain mean square
    segs = []
    pw = None
    lead = 1.0
    for m, k in p.terms.items():
        d = [(a, e) for a, e in m if ATOMS[a].kind == 'op' and ATOMS[a].args[0] == 'dot']
        if len(d) != 1:
            return None
        a, e = d[0]
        x, y, n = ATOMS[a].args[1:4]
        rest = mk({tuple(q for q in m if q[0] != a): k})
        rest = mul(rest, power(n, e)) if n.terms else rest
        if pw is None:
            pw = e
        if e != pw or (len(p.terms) > 1 and e != 1):
            return None
        segs.append((rest, x))
    e = float(pw)
    if len(segs) == 1:
        rest, x = segs[0]
        c = rest.const
        if c is None or c <= 0:
            f = power(rest, Fr(1) / (2 * Fr(pw))) if len(rest.terms) == 1 else None
            if f is None:
                return None
            return 1.0, 2 * e, [mul(f, x)]
        return float(c), 2 * e, [x]
    ns = len(segs)
    xs = []
    for rest, x in segs:
        r = scale(rest, ns)
        if r is not ONE:
            x = mul(power(r, Fr(1, 2)), x)
        xs.append(x)
    return 1.0, 2.0, xs


def norm_facts(st):
    """[(bound on RMS, [X])] from the true comparisons of a path; and comparisons with a norm that cannot be read"""
    out, odd = [], 0

    def add1(c, v):
        nonlocal odd
        if c.kind in ('and', 'or') and (v is True) == (c.kind == 'and'):
            for x in c.fargs:
                add1(x, v)
            return
        if c.kind == 'not':
            add1(c.fargs[0], not v)
            return
        if c.kind not in ('lt', 'le') or v is not True:
            return
        a, b = c.fargs
        if not any(x.kind == 'op' and x.args[0] in ('dot', 'norm2', 'norminf') for x in walk(a)):
            return
        todo = [a]
        for x in poly_atoms(a):
            if x.kind == 'ite' and len(a.terms) == 1:      # E or 1e-160
                todo = [mul(mul(a, inv(of_atom(x))), y) for y in x.args[1:]]
        for q in todo:
            r = as_norm(q)
            if r is not None and r[1] > 0 and b.const is not None and r[0] > 0:
                out.append(((float(b.const) / r[0]) ** (1 / r[1]), r[2]))
            elif r is None and any(x.kind == 'op' and x.args[0] in ('dot', 'norm2', 'norminf') for x in walk(q)):
                odd += 1
    for c, v in st.facts.items():
        if isinstance(c, Cond):
            add1(c, v)
    return out, odd


def unscale(X):
    """X = E * inv(S) -> (E, S)"""
    com = None
    for m in X.terms:
        s = {a for a, e in m if e == 1 and ATOMS[a].kind == 'op' and ATOMS[a].args[0] == 'inv'}
        com = s if com is None else com & s
    if not com:
        return None
    for a in com:
        S = ATOMS[a].args[1]
        if any(x.kind == 'sym' and x.args[0] in ('atol', 'rtol') for x in walk(S)):
            E = mk({tuple(q for q in m if q[0] != a): k for m, k in X.terms.items()})
            return E, S
    return None


def reads(p, name):
    return any(x.kind == 'sym' and x.args[0] == name for x in walk(p))


def scale_parts(S):
    """S = a + r*max(|u|, |v|) -> (a, r, {u, v}) ; None: other form"""
    a, best = ZERO, None
    for m, k in S.terms.items():
        mx = [q for q, e in m if e == 1 and ATOMS[q].kind == 'op' and ATOMS[q].args[0] in ('npmax', 'max', 'fmax')
              and any(x.kind == 'op' and x.args[0] == 'abs' for y in ATOMS[q].args[1:] for x in poly_atoms(y))]
        t = mk({m: k})
        if mx and best is None:
            best = (mk({tuple(x for x in m if x[0] != mx[0]): k}), ATOMS[mx[0]])
        elif any(q for q, e in m if vectorial(of_atom(ATOMS[q])) and not reads(of_atom(ATOMS[q]), 'atol')):
            return None
        else:
            a = add(a, t)
    if best is None:
        return None
    arg = []
    for y in best[1].args[1:]:
        x = the_atom(y)
        if x is None or x.kind != 'op' or x.args[0] != 'abs':
            return None
        arg.append(x.args[1])
    return a, best[0], arg


def unfilter(E):
    """estimate before it is filtered with the iteration matrix"""
    t = list(E.terms.items())
    if len(t) == 1:
        m, k = t[0]
        s = [a for a, e in m if e == 1 and ATOMS[a].kind == 'op' and ATOMS[a].args[0] == 'solve']
        if len(s) == 1:
            rest = mk({tuple(q for q in m if q[0] != s[0]): k})
            return mul(rest, ATOMS[s[0]].args[-1])
    return E


def job(r, cls, **cfg):
    X = Explore(cls, dense=False, **cfg)
    names = slope_names(X)
    q = SEC[cls]
    good = exps = 0
    seen = {}
    for k, h, o in X.paths(few=cls in IMPL):
        if o.kind not in ('ok', 'any'):
            continue
        r.count('accepting paths')
        facts, odd = norm_facts(o.st)
        if not facts:
            if odd:
                r.open('acceptance test not readable')
            else:
                r.bad(f'{cls} accepts without test', f'a step of {cls} is accepted on a path on which no norm of an error estimate has been '
                      f'compared with a bound', METHODS[cls])
            continue
        t0, t1 = X.attr(h, 't'), X.attr(o.st, 't')
        y0, y1 = cellist(X, h, X.attr(h, 'y')), cellist(X, o.st, X.attr(o.st, 'y'))
        H = add(t1, neg(t0))
        key = (H, tuple(y1), tuple(sorted((round(b, 9), tuple(x.id for x in xs)) for b, xs in facts)))
        if key in seen:
            continue
        seen[key] = 1
        why = []
        ok = False
        und = odd > 0
        for bound, xs in facts:
            res, msg = judge(r, X, h, o, t0, y0, y1, H, xs, q, names)
            if res == 'pre':
                continue
            if res is True and bound <= 1 + 1e-9:
                ok = True
                break
            if res is True:
                why.append(f'the estimate is only required to be below {bound:.4g}')
            elif res is False:
                why.append(msg)
            else:
                und = True
                why.append(msg)
        if ok:
            good += 1
        elif und or not why:
            r.open('; '.join(sorted(set(why)))[:200])
        else:
            r.bad(f'{cls} acceptance {sorted(set(why))[0][:60]}', f'a step of {cls} is accepted although ' + '; '.join(sorted(set(why))), METHODS[cls])
    for k, (inst, st) in enumerate(X.heads):
        exps += exponents(r, X, k, st, q, names)
    if good:
        r.good(f'{good} accepting paths passed RMS(E/(atol + rtol max(|y_old|,|y_new|))) < 1 with E of order {q + 1}')
    if exps:
        r.good(f'{exps} step size rules use the exponent -1/(order of the estimate)')


def judge(r, X, h, o, t0, y0, y1, H, xs, q, names):
    cls = X.cls
    us = [unscale(x) for x in xs]
    if any(u is None for u in us):
        if all(decided(x) for x in xs):
            return False, 'the tested quantity is not divided by the tolerances'
        return None, 'scale not found'
    if len(us) != len(y1):
        return None, 'number of segments'
    msg = None
    Es = []
    for (E, S), u, v in zip(us, y0, y1):
        p = scale_parts(S)
        if p is None:
            if decided(S) and not any(x.kind == 'ite' for x in walk(S)):
                return False, 'the scale of the error is not atol + rtol*max(|y_old|, |y_new|)'
            return None, 'scale of unknown form'
        a, rr, arg = p
        if not reads(a, 'atol') or not reads(rr, 'rtol'):
            return False, 'the scale of the error does not use both tolerances'
        Es.append((unfilter(E), arg))
    n = len(y1)
    vals = [H] + list(y1) + [e for e, _ in Es] + [a for _, arg in Es for a in arg]
    worst = None
    done = 0
    try:
        cs = cases(vals, o.st, scalar=(0,), prune=first_iteration if cls in IMPL else None, limit=200)
    except OverflowError:
        return None, 'too many cases'
    for conds, v, s in cs:
        Hc, Y, E, arg = v[0], v[1:1 + n], v[1 + n:1 + 2 * n], v[1 + 2 * n:]
        for i in range(n):
            pair = set(x.id for x in arg[2 * i:2 * i + 2])
            others = [x for x in arg[2 * i:2 * i + 2] if x is not y0[i] and x is not neg(y0[i])]
            if len(others) == 1 and (negligible(add(others[0], neg(Y[i]))) or negligible(add(others[0], Y[i]))):
                continue
            if len(others) == 1:
                # scaled by a solution other than the published one
                return False, 'the error is scaled with a solution that is not the one published'
            if len(others) == 0:
                return False, 'the error is scaled with the old solution only'
            return False, 'the error is not scaled with max(|y_old|, |y_new|)'
        need = q
        try:
            S, ls, _ = series(X, h, t0, y0, Hc, Y, q + 1, more=[(e, i) for i, e in enumerate(E)], names=names)
        except FirstIteration:
            continue
        except NotSeries as e:
            if e.definite:
                return False, f'the tested estimate is not one of the step: {e}'
            return None, str(e)
        if cls == 'CKdisc':
            from .c01 import used
            n1 = len(used(S, ls[0]))
            need = 1 if n1 <= 2 else 2 if n1 <= 4 else q
        done += 1
        sz = [S.size(l, i, q + 1) for i, l in enumerate(S.more)]
        top = max(z[need + 1] for z in sz)
        low = max(max(z[:need + 1]) for z in sz)
        t = tol(scale_of(S))
        r.count('trees', len(S.T.nodes))
        if low > t:
            return False, f'the tested estimate does not vanish up to order {need} (weight {low:.3g}): it is not the difference of two solutions of ' \
                          f'at least that order'
        if top <= 1e-8:
            return False, f'the tested estimate vanishes also at order {need + 1}'
        if cls not in IMPL and n == 2 and max(sz[0][need + 1:] or [0]) <= 1e-12 and max(sz[1][need + 1:] or [0]) <= 1e-12:
            return False, 'the estimate is zero'
    if not done:
        return None, 'only first iterations'
    return True, ''


def negligible(d):
    return all(abs(float(k)) < 1e-12 for k in d.terms.values())


def decided(v):
    return not any(a.kind == 'unk' or (a.info or {}).get('unk') for a in walk(v))


def exponents(r, X, k, st, q, names):
    """powers of error norms in the retry step sizes of the attempt loop and in the standard controller"""
    cls = X.cls
    n = 0
    srcs = {}
    for kk, h, o in X.paths(few=cls in IMPL):
        if kk != k or o.kind not in ('ok', 'any'):
            continue
        H = add(X.attr(o.st, 't'), neg(X.attr(h, 't')))
        for a in poly_atoms(H):
            if a.kind == 'mu' and a.id not in X.nodes(k):
                for s in MU_SOURCES.get(a.id, ()):
                    if isinstance(s, Poly):
                        srcs[s] = (h, of_atom(a))
        if k == 0 and isinstance(X.attr(o.st, 'h_abs'), Poly):
            srcs[X.attr(o.st, 'h_abs')] = (h, None)
    for s, (h, hm) in srcs.items():
        for p in norm_powers(s):
            c, e, xs = p
            if e >= 0:
                continue
            us = [unscale(x) for x in xs]
            if any(u is None for u in us):
                continue
            need = order_of(r, X, k, h, hm, [unfilter(E) for E, S in us], q, names)
            if need is None:
                r.count('powers not judged')
                continue
            if need < 1:
                r.bad(f'{cls} inconsistent estimate', f'a step of {cls} may be rejected by a quantity that is not an error estimate: it does not '
                      f'vanish to first order', METHODS[cls])
            elif abs(e + 1 / (need + 1)) > 1e-9:
                r.bad(f'{cls} exponent {e:.4f}', f'a step size of {cls} is chosen with the error norm to the power {e:.4f} instead of '
                      f'-1/{need + 1}', METHODS[cls])
            else:
                n += 1
    return n


def norm_powers(s):
    """norms raised to powers inside a step size"""
    out = []
    seen = set()
    stack = [(s, 1)]
    while stack:
        x, g = stack.pop()
        if (x.id, isinstance(x, Poly), g) in seen:
            continue
        seen.add((x.id, isinstance(x, Poly), g))
        if isinstance(x, Poly):
            for m, kk in x.terms.items():
                d = [(a, e) for a, e in m if ATOMS[a].kind == 'op' and ATOMS[a].args[0] in ('dot', 'pow')]
                if len(d) == 1:
                    keep = [q for q in m if q[0] == d[0][0] or (ATOMS[q[0]].kind == 'sym' and ATOMS[q[0]].args[0] == 'n')]
                    p = as_norm(mk({tuple(keep): Fr(1)}))
                    if p is not None:
                        if p[1] * g < 0:
                            out.append((p[0], p[1] * g, p[2]))
                        continue
                for a, e in m:
                    stack.append((ATOMS[a], g if e > 0 else -g))
        else:
            if x.kind == 'op' and x.args[0] in ('dot', 'solve') or x.kind == 'app':
                continue
            if x.kind == 'op' and x.args[0] == 'inv':
                if any(reads(y, 'atol') for y in x.args[1:]) and vectorial(x.args[1]):
                    continue
                g = -g
            if x.kind == 'ite':
                stack.extend((y, g) for y in x.args[1:])
            elif x.kind != 'mu':
                stack.extend((y, g) for y in x.args if isinstance(y, (Poly, Atom)))
    return out


def order_of(r, X, k, h, hm, Es, q, names):
    """order of the lower order formula of an estimate, or None"""
    t0 = X.attr(h, 't')
    y0 = cellist(X, h, X.attr(h, 'y'))
    if len(Es) != len(y0):
        return None
    d = [a for E in Es for a in walk(E) if a.kind == 'sym' and (a.info or {}).get('sign')]
    if hm is None:
        return None
    H = mul(hm, of_atom(d[0])) if d else hm
    for E in Es:
        if not any(a is the_atom(hm) for a in walk(E)):
            return None
    best = None
    try:
        for conds, v, s in cases([H] + Es, h, scalar=(0,), limit=100, prune=first_iteration if X.cls in IMPL else None):
            S, ls, _ = series(X, h, t0, y0, v[0], list(y0), q + 1, more=[(e, i) for i, e in enumerate(v[1:])], names=names)
            sz = [S.size(l, i, q + 1) for i, l in enumerate(S.more)]
            t = tol(scale_of(S))
            o = 0
            while o <= q and max(z[o] for z in sz) <= t:
                o += 1
            best = o - 1 if best is None else min(best, o - 1)
    except (NotSeries, OverflowError, FirstIteration):
        return best
    return best
