"""C06: rejected and failed attempts leave no trace in the solution."""
from sa.iv import Ctx
from .common import *
from .order import *
from sa.leaf import vectorial
from .c05 import slope_names, cellist, same_cases, dense_slopes

LEVEL = 'other'
TECHNIQUE = 'value numbering by abstract interpretation: dependence of published values on loop carried and stale data; interval evaluation of the step size ratio'
RULE = ('every accepting path of a step (exits of the attempt loop kept apart, from every generic state) publishes value numbers for y, the '
        'derivative carried on and the dense output; after splitting merges and expressing them by the step size finally used, they '
        'may contain only t, y and the derivative at the start, that step size and evaluations of f (for implicit methods: stage '
        'iterates that are defined by their converged stage equation, and the factors of the iteration matrix): no loop carried value of '
        'a rejected attempt, no attribute left by an earlier step or dense output. Every failing path leaves t, y (value '
        'and buffer) and t_old as they were. On paths after a rejection the interval of (new step size)/(accepted step size) has upper bound 1.')
ASSUME = ['numpy/scipy calls behave as modelled', 'an iterate of a converged Newton iteration is determined by its equation']


def jobs(tier):
    out = []
    for lab, c, kw, lim in configs(tier):
        if tier != 'thorough' and lab in ('KC4Ia', 'KC4I'):
            continue
        out.append((lab, 'job', dict(cls=c, **kw), lim))
    return out


def job(r, cls, **cfg):
    X = Explore(cls, dense=False, **cfg)
    names = slope_names(X)
    inf = {n for n, _ in X.influential()}
    live = sorted(n for n in names if n in inf) or sorted(names)
    acc = fails = grow = traces = 0
    seen = set()
    for k, h, o in X.paths(few=cls in IMPL):
        if o.kind == 'fail':
            fails += failed(r, X, k, h, o)
            continue
        if o.kind not in ('ok', 'any'):
            continue
        acc += 1
        if cls in EXPL + IMPL:
            traces += trace(r, X, k, h, o, live, seen)
            grow += growth(r, X, k, h, o)
        elif cls == 'SSV2stab':
            grow += growth(r, X, k, h, o)
    r.count('accepting paths', acc)
    r.count('failing paths', fails)
    if fails:
        r.good(f'{fails} failing paths leave t, y and t_old unchanged')
    if traces:
        r.good(f'{traces} published values on {acc} accepting paths depend on the start of the step and the step size only')
    if grow:
        r.good(f'{grow} paths after a rejection: ratio of step sizes at most 1')


def failed(r, X, k, h, o):
    ok = 1
    for n in ('t', 'y', 't_old', 'y_old'):
        u, v = X.attr(h, n), X.attr(o.st, n)
        if n == 'y_old':
            continue
        same = u is v
        if isinstance(u, Arr) and isinstance(v, Arr):
            same = u.b == v.b and u.axes == v.axes
            if same:
                a, b = cellist(X, h, u), cellist(X, o.st, v)
                same = a is not None and b is not None and same_cases(X, b, a, o.st)
        elif isinstance(u, Poly) and isinstance(v, Poly) and not same:
            same = same_cases(X, [v], [u], o.st)
        if not same:
            ok = 0
            r.bad(f'{X.cls} failed step changes {n}', f'a step that fails leaves another {n} than before the call', METHODS[X.cls])
    return ok


def published(X, o, live):
    """label -> list of value numbers"""
    out = [('y', [x for x in cellist(X, o.st, X.attr(o.st, 'y')) or []])]
    for n in live:
        c = cellist(X, o.st, X.attr(o.st, n))
        if c:
            out.append((n, c))
    return out


def dense_values(X, o):
    for d in X.R.call_method(X.inst, 'dense_output', [], fresh_log(o.st)):
        if d.kind != 'ok' or not isinstance(d.val, Ref):
            continue
        vals = []
        for n, v in d.st.o(d.val.a).d.items():
            vals += [x for _, x in X.scalars(d.st, v)]
        yield d.st, [x for x in vals if isinstance(x, Poly)]


def trace(r, X, k, h, o, live, seen):
    cls = X.cls
    t0, t1 = X.attr(h, 't'), X.attr(o.st, 't')
    y0 = cellist(X, h, X.attr(h, 'y'))
    H = add(t1, neg(t0))
    own = {}
    for i, s in X.nodes(k).items():
        own[i] = {n for n, _ in s}
    ok = {'t', 'y', 't_bound', 'direction', 'max_step', 'rtol', 'atol', 'n'} | set(live) | slope_names(X)
    n = 0
    sets = [(lab, o.st, v) for lab, v in published(X, o, live)]
    for st, v in dense_values(X, o):
        sets.append(('dense output', st, v))
    for lab, st, vals in sets:
        key = (lab, H, tuple(vals))
        if key in seen:
            continue
        seen.add(key)
        try:
            cs = cases([H] + vals, st, scalar=(0,), prune=first_iteration if cls in IMPL else None, limit=200)
        except OverflowError:
            r.open(f'{lab}: too many cases')
            continue
        for conds, v, s in cs:
            try:
                new, f = substH(v[1:], v[0])
            except NotSeries:
                new = v[1:]
            stale = leftovers(X, h, new, own, ok, live, t0, y0)
            n += 1
            for what, a in sorted(stale.items()):
                r.bad(f'{cls} {lab} depends on {what}', f'{lab} of an accepted step of {cls} depends on {what}, not only on the start of the '
                      f'step and the step size used', METHODS[cls])
    return n


def leftovers(X, h, values, own, ok, live, t0, y0):
    """merged values in value positions that are not determined by the start of the step"""
    sl = slopes(X, h, live, t0, y0) if X.cls in IMPL else {}
    solver = Implicit(values, sl) if X.cls in IMPL else None
    seen, out = set(), {}
    stack = list(values)
    while stack:
        x = stack.pop()
        if isinstance(x, Poly):
            if x.id not in seen:
                seen.add(x.id)
                stack.extend(poly_atoms(x))
        elif isinstance(x, Atom):
            if ('a', x.id) in seen:
                continue
            seen.add(('a', x.id))
            if x.kind == 'op' and x.args[0] == 'solve' and solver is not None:
                continue
            if x.kind == 'mu' and x.info and x.info.get('unk'):
                stack.extend(MU_SOURCES.get(x.id, ()))       # result of a function that is not modelled
                continue
            if x.kind == 'mu':
                if solver is not None and x.id in solver.eq:
                    stack.append(solver.eq[x.id])
                    continue
                if not vectorial(of_atom(x)):
                    continue              # step sizes, error norms: see C02, C05, C08
                names = own.get(x.id)
                if names:
                    if names & ok:
                        continue
                    what = '/'.join(sorted(names)) + ' as left by an earlier step'
                else:
                    what = 'a value of a rejected attempt (' + show_atom(x, 0).split('~')[0] + ')'
                out[what] = x
                continue
            if x.kind == 'ite':
                stack.extend(x.args[1:])
            else:
                stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return out


def growth(r, X, k, h, o):
    t0, t1 = X.attr(h, 't'), X.attr(o.st, 't')
    H = add(t1, neg(t0))
    ha = X.attr(o.st, 'h_abs')
    a = [x for x in poly_atoms(H)]
    if not any(x.kind == 'mu' and x.id not in X.nodes(k) for x in a) or not isinstance(ha, Poly):
        return 0
    sg = [x for x in a if x.info and x.info.get('sign')]
    if len(H.terms) != 1 or len(sg) > 1:
        return 0
    R = mul(ha, inv(mul(H, of_atom(sg[0])) if sg else H))
    ctx = o.st.ctx or Ctx(o.st.facts)
    lo, hi, nan = ctx.iv(R)
    if hi <= 1 + 1e-12:
        return 1
    if lo > 1:
        r.bad(f'{X.cls} step size grows', f'after a rejected attempt the next step size is {lo:.3g} times the accepted one', METHODS[X.cls])
        return 0
    for d in walk(R):
        if d.kind == 'op' and d.args[0] == 'dot':
            c2 = ctx.extend(cond('lt', of_atom(d), num(Fr(1, 10**30))), True)
            if c2.iv(R)[0] > 1:
                r.bad(f'{X.cls} step size grows', f'after a rejected attempt the next step size exceeds the accepted one when the error '
                      f'is small', METHODS[X.cls])
                return 0
    r.open(f'ratio of step sizes after a rejection: [{lo:.3g}, {hi:.3g}]')
    return 0
