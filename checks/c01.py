"""C01: advertised order of accuracy of the published solution."""
from .common import *
from .order import *

LEVEL = 'other'
TECHNIQUE = 'value numbering by abstract interpretation, order conditions of the resulting B-/P-series'
RULE = ('every path by which a step of a one-step method is accepted is executed abstractly; the published solution is obtained as a value '
        'number, a polynomial in the old state, the step size t_new - t_old and evaluations of f at such values. Its expansion in '
        'elementary differentials is compared with that of the exact solution at t_new for every rooted tree (bicoloured trees for '
        'Nystrom methods, time leaves if row sums differ from the nodes) up to the advertised order; tolerance 1e-9 relative to the '
        'size of the sums. Each (class, path, segment) is one obligation. ESDIRK stage equations enter as fixed points.')
ASSUME = ['floating point coefficients are read as the decimal numbers written in the source', 'numpy calls behave as modelled']

ORDER = {'Me4': 4, 'Ts5': 5, 'BS5': 5, 'CK5': 5, 'CKdisc': 5, 'Pr7': 7, 'Pr8': 8, 'Pr9': 9, 'CFMR7osc': 7, 'Fi4N': 4, 'Fi5N': 5,
         'Mu5Nmb': 5, 'MR6NN': 6, 'TRBDF2': 2, 'TRX2': 2, 'KC3I': 3, 'KC4I': 4, 'KC4Ia': 4, 'Kv3I': 3}


def jobs(tier):
    out = []
    for c in ('KC4Ia', 'KC4I', 'KC3I', 'Kv3I', 'TRBDF2', 'TRX2'):
        out.append((c, 'job', dict(cls=c), 400))
    for c in ('Pr9', 'Pr8') + tuple(x for x in EXPL if x not in ('Pr8', 'Pr9')):
        out.append((c, 'job', dict(cls=c), 200))
    return out


def job(r, cls, **cfg):
    X = Explore(cls, dense=False, **cfg)
    order = ORDER[cls]
    seen = set()
    for k, h, o, conds, t0, y0, H, ys, rest in accepted(X):
        key = (H, tuple(ys), tuple(y0))
        if key in seen:
            continue
        seen.add(key)
        try:
            S, ls, H2 = series(X, h, t0, y0, H, ys, order)
        except FirstIteration:
            r.count('first iteration cases')
            continue
        except NotSeries as e:
            if e.definite:
                r.bad(f'{cls} solution {e}', f'the published solution is not of one-step form: {e}', '')
            else:
                r.open(f'state {k}: {e}')
            continue
        n = sum(1 for x in S.T.nodes)
        r.count('trees', n)
        r.count('paths')
        for s, l in enumerate(ls):
            d = S.defect(l, s, order)
            got = reached(d, scale_of(S))
            need = order
            if cls == 'CKdisc':               # fallback formulas use 2 and 4 evaluations
                n1 = len(used(S, l))
                need = 2 if n1 <= 2 else 3 if n1 <= 4 else order
            if got < need:
                bad = next(i for i, x in enumerate(d) if x > tol(scale_of(S)))
                r.bad(f'{cls} order {got} of {"xv"[s] if S.second else "y"}',
                      f'the solution published by {cls} satisfies the conditions up to order {got} only (advertised {need}); largest '
                      f'defect at order {bad}: {d[bad]:.3g}', f'extensisq/{METHODS[cls]}.py:{cls}')
            else:
                r.good(f'state {k}, path {len(seen)}: order {got} on {n} trees, defect {max(d[:got + 1]):.1e}')
    if not seen:
        r.open('no accepting path found')


def used(S, l):
    """evaluations of f that enter a value directly or through stages"""
    out = set()
    todo = [it[1] for (h, th, it), k in l.items() if it[0] == 'app']
    while todo:
        i = todo.pop()
        if i not in out:
            out.add(i)
            todo += [it[1] for rows in S.stages[i]['arg'] for (h, th, it), k in rows.items() if it[0] == 'app']
    return out
