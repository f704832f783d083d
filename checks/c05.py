"""C05: published t, y, derivative and step data are consistent."""
from .common import *
from .order import *

LEVEL = 'other'
TECHNIQUE = 'value numbering by abstract interpretation: equality of published values on every accepting path'
RULE = ('on every accepting path of a step from every generic state, the value numbers published are compared: t_old and y_old are t and y '
        'before the step; every attribute that holds fun(t, y) after construction and influences later steps or dense output holds '
        'fun(t_new, y_new) afterwards (explicit methods, SSV2stab and full steps of SWAG: the same f-evaluation; ESDIRK: the slope of the '
        'converged last stage, whose stage equation is the one at t_new, y_new); *_old slopes are the slope before the step; '
        'h_previous is t_new - t_old; the dense output spans exactly t_old..t_new.')
ASSUME = ['numpy/scipy calls behave as modelled', 'an iterate of a converged Newton iteration solves its equation exactly']


def jobs(tier):
    heavy = HEAVY if tier == 'thorough' else ('SSV2stab', 'KC3I', 'Kv3I', 'TRBDF2', 'TRX2')
    return [(c, 'job', dict(cls=c), 400) for c in heavy + FAST]


def cellist(X, st, v):
    c = X.cells(st, v) if isinstance(v, Arr) else None
    if c is None:
        return None
    return [X.lib.topoly(c[p]) for p in sorted(c)]


def job(r, cls, **cfg):
    X = Explore(cls, **cfg)
    names = slope_names(X)
    inf = {n for n, _ in X.influential()}
    used = dense_slopes(X, names)
    live = sorted(n for n in names if n in inf or n in used)
    r.count('slope attributes', len(live))
    good = bad0 = 0
    seen = set()
    for k, h, o in X.paths(few=cls in IMPL):
        if o.kind not in ('ok', 'any'):
            continue
        r.count('paths')
        t0, y0 = X.attr(h, 't'), cellist(X, h, X.attr(h, 'y'))
        for n, want, what in (('t_old', [t0], 't'), ('y_old', y0, 'y')):
            v = X.attr(o.st, n)
            got = [v] if isinstance(v, Poly) else cellist(X, o.st, v) if v is not None else None
            if got is None:
                continue
            if not same_cases(X, got, want, o.st):
                r.bad(f'{cls} {n}', f'after a step {n} is not the {what} before the step', METHODS[cls])
            else:
                good += 1
        if cls == 'SWAG' and not any(e[0] == 'ucall' and e[1] == 'F' for e in o.st.events()):
            continue                      # extrapolation over a rounding size remainder
        for n in live:
            check_slope(r, X, k, h, o, n, live)
        v = X.attr(o.st, 'h_previous')
        if isinstance(v, Poly) and 'h_previous' in X.R.step_reads | inf | {'h_previous'}:
            H = add(X.attr(o.st, 't'), neg(t0))
            if same_cases(X, [v], [H], o.st, eqs=True):
                good += 1
            elif decided(v) and decided(H):
                r.bad(f'{cls} h_previous', f'h_previous after a step is not t - t_old: {show(v, 2)[:100]} / {show(H, 2)[:100]}', METHODS[cls])
            else:
                r.open('h_previous')
    for k, h, o, d in X.dense:
        if d.kind != 'ok' or not isinstance(d.val, Ref):
            continue
        a = d.st.o(d.val.a).d
        if all(isinstance(a.get(n), Poly) for n in ('t_old', 't')):
            w = [X.attr(o.st, n) for n in ('t_old', 't')]
            v = [a[n] for n in ('t_old', 't')]
            if any(same_cases(X, v, x, d.st, eqs=True) for x in (w, w[::-1])):
                good += 1
            elif decided(v[0]) and decided(v[1]):
                r.bad(f'{cls} dense range', 'the dense output of a step does not span t_old..t of the step', METHODS[cls])
            else:
                r.open('range of dense output')
    r.good(f'{good} equalities of t_old, y_old, h_previous and dense output range')
    r.good(f'slope attributes {live} checked')


def decided(v):
    return not any(a.kind == 'unk' for a in walk(v))


def same_cases(X, got, want, st, eqs=False):
    if len(got) != len(want):
        return False
    if all(a is b for a, b in zip(got, want)):
        return True
    n = len(got)
    for conds, vals, s in cases(list(got) + list(want), st, scalar=tuple(range(2 * n))):
        for a, b in zip(vals[:n], vals[n:]):
            if a is not b and not equal_under(a, b, s):
                return False
    return True


def equal_under(a, b, st):
    """equal, given the equations known on the path"""
    d = add(a, neg(b))
    if not d.terms:
        return True
    for c, v in st.facts.items():
        if v is True and getattr(c, 'kind', None) == 'eq':
            e = c.fargs[0]
            from sa.poly import _multiple
            if _multiple(d, e):
                return True
    return small(d)


def small(d):
    return all(abs(float(k)) < 1e-12 for k in d.terms.values())


def slope_names(X):
    """attributes that hold fun(t, y) in every initial state"""
    out = None
    for o in X.ok:
        t, ys = X.attr(o.st, 't'), cellist(X, o.st, X.attr(o.st, 'y'))
        names = set()
        for n, v in o.st.o(X.inst.a).d.items():
            c = cellist(X, o.st, v)
            if c is not None and is_slope(X, c, t, ys):
                names.add(n)
        out = names if out is None else out & names
    return out or set()


def is_slope(X, c, t, ys):
    if len(c) != len(ys):
        return False
    if len(c) == 2:
        a = the_atom(c[1])
        return c[0] is ys[1] and a is not None and a.kind == 'app' and a.args[1] is t and a.args[2] == tuple(ys)
    a = the_atom(c[0])
    return a is not None and a.kind == 'app' and a.args[1] is t and a.args[2] == tuple(ys)


def dense_slopes(X, names):
    """slope attributes whose data the dense output uses"""
    out = set()
    last = max((k for k, *_ in X.dense), default=0)      # in the initial state other attributes hold the same values
    for k, h, o, d in X.dense:
        if k != last or d.kind != 'ok' or not isinstance(d.val, Ref):
            continue
        held = {x.id for _, v in d.st.o(d.val.a).d.items() for _, x in X.scalars(d.st, v)}
        for n in names:
            c = cellist(X, o.st, X.attr(o.st, n))
            if c and all(x.id in held for x in c):
                out.add(n)
    return out


def check_slope(r, X, k, h, o, n, live):
    cls = X.cls
    t0, t1 = X.attr(h, 't'), X.attr(o.st, 't')
    y0, y1 = cellist(X, h, X.attr(h, 'y')), cellist(X, o.st, X.attr(o.st, 'y'))
    c = cellist(X, o.st, X.attr(o.st, n))
    if c is None or y1 is None or len(c) != len(y1):
        r.bad(f'{cls} {n} shape', f'{n} does not have the form of a derivative after a step', METHODS[cls])
        return
    nn = len(c)
    try:
        cs = cases([t1, t0] + y1 + c, o.st, scalar=(0,), prune=first_iteration if cls in IMPL else None, limit=300)
    except OverflowError:
        r.open(f'{n}: too many cases')
        return
    for conds, vals, s in cs:
        T1, T0, Y1, C = vals[0], vals[1], vals[2:2 + nn], vals[2 + nn:]
        if is_slope(X, C, T1, Y1):
            r.count('slopes equal')
            continue
        if cls in ('SWAG', 'SSV2stab'):
            a = the_atom(C[-1])
            if a is not None and a.kind == 'app' and a.args[0] == 'F':
                why = []
                if not equal_under(a.args[1], T1, s):
                    why.append('at another time than t')
                if not all(x is y or small(add(x, neg(y))) for x, y in zip(a.args[2], Y1)):
                    why.append('at another state than y')
                if not why:
                    r.count('slopes equal')
                    continue
                if any('at another time' in w for w in why) and not plain(a.args[1], T1):
                    r.open(f'{n}: time of the slope not decided')
                    continue
                r.bad(f'{cls} {n} slope', f'{n} carried to the next step is fun evaluated {" and ".join(why)} published by the step', METHODS[cls])
            else:
                r.open(f'{n} is not a single evaluation of fun')
            continue
        try:
            H = add(T1, neg(T0))
            S, ls, _ = series(X, h, T0, y0, H, Y1, 1, more=[(x, i) for i, x in enumerate(C)], names=live)
        except FirstIteration:
            continue
        except NotSeries as e:
            if e.definite:
                r.bad(f'{cls} {n} slope', f'{n} after a step is not an evaluation of fun: {e}', METHODS[cls])
            else:
                r.open(f'{n}: {e}')
            continue
        l = {x: v for x, v in S.more[-1].items() if abs(float(v)) > 1e-12}
        ids = [it[1] for (hh, th, it), v in l.items() if it[0] == 'app']
        if len(l) != 1 or len(ids) != 1 or abs(float(list(l.values())[0]) - 1) > 1e-10 or list(l)[0][0] != 0:
            if len(l) == 0:
                r.open(f'{n}: no value')
                continue
            # a combination of several stages: compare as functions of the stages is not needed, it is not the slope at y
            r.bad(f'{cls} {n} slope', f'{n} after a step is a combination of {len(ids)} evaluations of fun, not the derivative at the '
                  f'published t, y', METHODS[cls])
            continue
        st = S.stages[ids[0]]
        ok = abs(float(st['c']) - 1) < 1e-11
        why = [] if ok else [f't + {float(st["c"]):.4g} h instead of t + h']
        for a, b in zip(st['arg'], ls):
            if not close(a, b):
                why.append('another state than y')
                break
        if nn == 2:
            lx = {x: v for x, v in S.more[0].items() if abs(float(v)) > 1e-12}
            if not close(lx, ls[1]):
                why.append('another velocity')
        if why:
            r.bad(f'{cls} {n} slope', f'{n} carried to the next step is the derivative at {", ".join(why)}', METHODS[cls])
        else:
            r.count('slopes equal')
    # old slope
    old = n + '_old'
    w = X.attr(o.st, old)
    if isinstance(w, Arr):
        a, b = cellist(X, o.st, w), cellist(X, h, X.attr(h, n))
        if same_cases(X, a, b, o.st):
            r.count('old slopes equal')
        elif old_slope_ok(X, a, t0, y0, o.st):
            r.count('old slopes equal')
        else:
            r.bad(f'{cls} {old}', f'{old} after a step is not the derivative {n} before the step', METHODS[cls])


def used_by_dense(X, name):
    for k, h, o, d in X.dense:
        if d.kind == 'ok' and isinstance(d.val, Ref):
            held = {x.id for _, v in d.st.o(d.val.a).d.items() for _, x in X.scalars(d.st, v)}
            c = cellist(X, o.st, X.attr(o.st, name))
            if c and all(x.id in held for x in c):
                return True
    return False


def old_slope_ok(X, c, t0, y0, st):
    return all(is_slope(X, vals, t0, y0) for _, vals, _ in cases(c, st))


def plain(a, b):
    d = add(a, neg(b))
    return not any(x.kind in ('ite', 'mu', 'unk') for x in poly_atoms(d)) or len(d.terms) <= 2


def close(a, b):
    for x in set(a) | set(b):
        if abs(float(a.get(x, 0)) - float(b.get(x, 0))) > 1e-10 * max(1, abs(float(a.get(x, 0)))):
            return False
    return True
