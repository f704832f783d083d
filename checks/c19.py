"""C19: the tolerances in use are the requested ones, within documented bounds."""
import itertools
from .common import *
from sa.drive import Run
from sa.lib import EPSNEG, TINY

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation: value numbers of the tolerances, case enumeration of piecewise linear functions'
RULE = ('construction is executed abstractly with symbolic tolerances of either sign: on every path that constructs a solver, its rtol '
        'and atol are expressions in the requested tolerance and constants of the dtype of the problem; they are piecewise linear '
        '(minima, maxima, conditions) and are compared with the documented limits on all cells of the arrangement of their '
        'linear pieces. Negative tolerances (scalar or any component of a vector), an integer or array rtol and an atol of wrong shape may '
        'only lead to ValueError. On every path that accepts a step a condition depends on both tolerances.')
ASSUME = ['numpy calls behave as modelled in sa/libnp.py']

R0 = sym('rtol_any', real=True)
A0 = sym('atol_any', real=True)
VAL = {EPSNEG: Fr(1, 2**53), TINY: Fr(1, 2**1022)}


def jobs(tier):
    out = [(c, 'job', dict(cls=c), 200) for c in CONCRETE]
    out += [(c + '/test', 'test', dict(cls=c), 250) for c in CONCRETE]
    return out


class Unknown(Exception):
    pass


def value(p, env):
    """exact value of an expression of minima, maxima and conditions"""
    if isinstance(p, Poly):
        s = Fr(0)
        for m, c in p.terms.items():
            t = Fr(c)
            for i, e in m:
                b = base(ATOMS[i], env)
                if e == Fr(1, 2):
                    n, d = isq(b.numerator), isq(b.denominator)
                    t *= Fr(n, d)
                elif int(e) == e:
                    t *= b ** int(e)
                else:
                    raise Unknown
            s += t
        return s
    raise Unknown


def isq(n):
    import math
    r = math.isqrt(n)
    if r * r != n:
        raise Unknown
    return r


def base(a, env):
    if a.id in env:
        return env[a.id]
    for q, v in VAL.items():
        if the_atom(q) is a:
            return v
    if a.kind == 'op' and a.args[0] in ('max', 'npmax'):
        return max(value(x, env) for x in a.args[1:])
    if a.kind == 'op' and a.args[0] in ('min', 'npmin'):
        return min(value(x, env) for x in a.args[1:])
    if a.kind == 'op' and a.args[0] == 'abs':
        return abs(value(a.args[1], env))
    if a.kind == 'ite':
        return value(a.args[1] if truth(a.args[0], env) else a.args[2], env)
    if a.kind == 'sym':
        raise Foreign(str(a.args[0]))
    raise Unknown


class Foreign(Exception):
    pass


def truth(c, env):
    if isinstance(c, bool):
        return c
    if c.kind == 'not':
        return not truth(c.fargs[0], env)
    if c.kind == 'and':
        return all(truth(x, env) for x in c.fargs)
    if c.kind == 'or':
        return any(truth(x, env) for x in c.fargs)
    if c.kind == 'lt':
        return value(c.fargs[0], env) < value(c.fargs[1], env)
    if c.kind == 'le':
        return value(c.fargs[0], env) <= value(c.fargs[1], env)
    if c.kind == 'eq':
        return value(c.fargs[0], env) == 0
    if c.kind in ('all', 'any'):
        xs = [x for y in c.fargs for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, (Cond, bool))]
        if xs:
            return (all if c.kind == 'all' else any)(truth(x, env) for x in xs)
    raise Unknown


def pieces(p, s, out):
    """linear pieces (value at 0, slope) in the symbol that an expression is made of"""
    for a in walk(p):
        if isinstance(a, Atom):
            for q in (a.args if a.kind != 'sym' else ()):
                if isinstance(q, Poly):
                    lin(q, s, out)
                elif isinstance(q, Cond):
                    conds(q, s, out)
    lin(p, s, out)


def conds(c, s, out):
    for q in c.fargs:
        if isinstance(q, Poly):
            pieces(q, s, out)
        elif isinstance(q, Cond):
            conds(q, s, out)


def lin(q, s, out):
    try:
        z = value(subst(q, lambda a: ZERO if a.id == s else None), {s: Fr(0)})
        k = sum(Fr(c) for m, c in q.terms.items() if m == ((s, 1),))
        out.add((z, k))
    except (Unknown, Foreign):
        pass


def compare(v, spec, s, facts):
    """first point of the arrangement where v differs from the specification (facts limit the points), or None"""
    ps = {(Fr(0), Fr(0)), (Fr(0), Fr(1)), (Fr(1, 10), Fr(0)), (10 * VAL[EPSNEG], Fr(0)), (Fr(1, 2**511), Fr(0))}
    pieces(v, s, ps)
    for c in facts:
        conds(c, s, ps)
    xs = {Fr(0)}
    for (a, k), (b, l) in itertools.combinations(sorted(ps), 2):
        if k != l:
            xs.add((b - a) / (k - l))
    xs = sorted(xs)
    pts = [xs[0] - 1] + [x for a, b in zip(xs, xs[1:]) for x in (a, (a + b) / 2)] + [xs[-1], xs[-1] + 1]
    n = 0
    for x in pts:
        env = others(v, facts, s)
        env[s] = x
        if x < 0:
            continue
        if not all(truth(c, env) == b for c, b in facts.items()):
            continue
        n += 1
        if value(v, env) != spec(x):
            return x, value(v, env), n
    return None, None, n


def others(v, facts, s):
    """the other tolerances have an allowed value"""
    env = {}
    for q in (v,) + tuple(facts):
        for a in walk(q):
            if a.kind == 'sym' and a.id != s and str(a.args[0]).startswith(('atol', 'rtol')):
                env[a.id] = Fr(1, 16)
    return env


def rspec(x):
    return min(max(x, 10 * VAL[EPSNEG]), Fr(1, 10))


def aspec(x):
    return max(x, Fr(1, 2**511))


def build(cls, change):
    opts = {}
    R = Run(cls, repo=REPO, opts=opts, tol='none')
    st = R.st.fork()
    args, kw = R.args(st)
    change(R, st, kw)
    return R, R.construct_in(st, args, kw)


def vec(R, st, name, k=None, second=None):
    L = R.lib
    segs = L.axis_of(R.size if k is None else k)
    return L.mkarr(st, (segs,), {(i,): sym(f'{name}_v{i}', real=True, axis=True) for i in range(len(segs))},
                   orig=frozenset(['user:' + name]))


def limits(r, cls, R, o, what, s, v, spec, where):
    rel = {c: b for c, b in o.st.facts.items() if any(a.id == s for a in walk(c))}
    try:
        x, got, n = compare(v, spec, s, rel)
    except Foreign as e:
        n = str(e)
        if n.split('.')[-1] in ('epsneg', 'eps', 'tiny'):
            r.bad(f'{cls} {what}', f'{what} is limited by {n}, not by the constant of the dtype of the problem', where)
        else:
            r.open(f'{cls}: {what} depends on {n}')
        return
    except Unknown:
        r.open(f'{cls}: {what} = {str(v)[:80]} is not piecewise linear')
        return
    if x is not None:
        r.bad(f'{cls} {what}', f'the {what} used for the requested value {float(x):.4g} is {float(got):.4g} instead of {float(spec(x)):.4g}', where)
    else:
        r.good(f'{cls}: {what} = {str(v)[:60]} equal to its documented limits on {n} cells')


def job(r, cls):
    mod = METHODS[cls]
    rs, as_ = the_atom(R0).id, the_atom(A0).id

    # any scalar tolerances
    def c1(R, st, kw):
        kw['rtol'], kw['atol'] = R0, A0
    R, outs = build(cls, c1)
    ok = [o for o in outs if o.kind == 'ok']
    if not ok:
        r.open(f'{cls}: no construction')
        return
    usual = {(o.exc.name, o.exc.args) for o in outs if o.exc}      # not related to the tolerances
    for o in ok:
        d = o.st.o(o.val.a).d
        for what, s, spec in (('rtol', rs, rspec), ('atol', as_, aspec)):
            v = d.get(what)
            if isinstance(v, Arr):
                c = list(R.lib.asarr(o.st, v)[1].values())
                v = R.lib.topoly(c[0]) if len(c) == 1 else None
            if not isinstance(v, Poly):
                r.open(f'{cls}: {what} is not a number')
                continue
            limits(r, cls, R, o, what, s, v, spec, mod)
            p = neg(sym('neg_' + what, pos=True))
            memo = {}
            con = False
            try:
                x = Fr(-1)
                rel = {c: b for c, b in o.st.facts.items() if any(a.id == s for a in walk(c))}
                con = not all(truth(c, others(ZERO, rel, s) | {s: x}) == b for c, b in rel.items()) and \
                    not all(truth(c, others(ZERO, rel, s) | {s: -Fr(1, 2**1100)}) == b for c, b in rel.items())
            except (Unknown, Foreign):
                r.open(f'{cls}: sign of {what} not decided')
                continue
            if con:
                r.good(f'{cls}: negative {what} rejected')
            else:
                r.bad(f'{cls} negative {what}', f'a negative {what} is accepted', mod)

    # vector atol
    def c2(R, st, kw):
        kw['rtol'], kw['atol'] = R0, vec(R, st, 'atol')
    R, outs = build(cls, c2)
    for o in outs:
        if o.kind != 'ok':
            if o.exc.name != 'ValueError' and (o.exc.name, o.exc.args) not in usual:
                r.bad(f'{cls} vector atol {o.exc.name}', f'a vector atol leads to {o.exc.name}', mod)
            continue
        v = o.st.o(o.val.a).d.get('atol')
        if not isinstance(v, Arr):
            r.bad(f'{cls} vector atol', 'a vector atol is not used per component', mod)
            continue
        for p, c in R.lib.asarr(o.st, v)[1].items():
            a = [x for x in walk(R.lib.topoly(c)) if x.kind == 'sym' and str(x.args[0]).startswith('atol_v')]
            if [x.args[0] for x in a] != [f'atol_v{p[0]}']:
                r.bad(f'{cls} vector atol', f'component {p[0]} of atol is {str(c)[:60]}', mod)
                continue
            limits(r, cls, R, o, f'atol[{p[0]}]', a[0].id, R.lib.topoly(c), aspec, mod)
            if not negative_excluded(o.st.facts, a[0].id):
                r.bad(f'{cls} negative atol component', 'an atol with a negative component is accepted', mod)
            else:
                r.good(f'{cls}: negative component of atol rejected')

    # wrong kinds
    def wrong(label, change):
        R, outs = build(cls, change)
        for o in outs:
            if o.kind == 'ok':
                if any(c.kind in ('isinst', 'opq', 'opqv') for c in flatc(o.st.facts)):
                    r.open(f'{cls}: {label} not decided')
                else:
                    r.bad(f'{cls} {label}', f'{label} is accepted', mod)
            elif (o.exc.name, o.exc.args) in usual and o.exc.name != 'ValueError':
                pass
            elif o.exc.name != 'ValueError':
                r.bad(f'{cls} {label}', f'{label} leads to {o.exc.name}, not to ValueError', mod)
            else:
                r.good(f'{cls}: {label} rejected')

    def w1(R, st, kw):
        kw['rtol'], kw['atol'] = sym('rtol_int', int=True, pos=True, type='int'), ATOL

    def w2(R, st, kw):
        kw['rtol'], kw['atol'] = vec(R, st, 'rtol'), ATOL

    def w3(R, st, kw):
        kw['rtol'], kw['atol'] = RTOL, vec(R, st, 'atol', two(R.size))

    def w4(R, st, kw):
        L = R.lib
        segs = L.axis_of(R.size)
        kw['rtol'] = RTOL
        kw['atol'] = L.mkarr(st, (segs, segs), {(i, j): sym(f'atol_m{i}{j}', pos=True, axis=True) for i in range(len(segs))
                                                for j in range(len(segs))}, orig=frozenset(['user:atol']))
    wrong('an integer rtol', w1)
    wrong('an array rtol', w2)
    wrong('an atol of wrong length', w3)
    wrong('a two-dimensional atol', w4)


def flatc(facts):
    todo = [c for c in facts if isinstance(c, Cond)]
    while todo:
        c = todo.pop()
        yield c
        todo += [x for x in c.fargs if isinstance(x, Cond)]


def negative_excluded(facts, s):
    """the facts imply that (each element of) the symbol is not negative"""
    rel = {c: b for c, b in facts.items() if any(a.id == s for a in walk(c))}
    for x in (Fr(-1), -Fr(1, 2**1100), -Fr(10)**9):
        try:
            if all(truth(c, others(ZERO, rel, s) | {s: x}) == b for c, b in rel.items()):
                return False
        except (Unknown, Foreign):
            return True
    return True


def test(r, cls):
    X = Explore(cls, dense=False)
    rt, at = the_atom(RTOL).id, the_atom(ATOL).id
    todo = {k for k, h, o in X.good}
    bad = {}
    for src in (lambda: X.good, lambda: [(k, h, o) for k, h, o in X.paths() if o.kind in ('ok', 'any')]):
        if not todo:
            break
        res = {}
        for k, h, o in src():
            if k not in todo:
                continue
            f = [flow(c) for c in o.st.facts]
            if any(rt in x and at in x for x in f):
                res.setdefault(k, set()).add('both')
            elif any(rt in x or at in x for x in f):
                res.setdefault(k, set()).add('one')
            else:
                res.setdefault(k, set()).add('none')
        for k, v in res.items():
            if v == {'both'}:
                todo.discard(k)
                bad.pop(k, None)
                r.good(f'state {k}: accepted under a condition on both tolerances')
            elif 'one' in v:
                bad[k] = True
    for k in sorted(todo):
        if k in bad:
            r.bad(f'{cls} test', 'a step is accepted under a condition that depends on one of the tolerances only', METHODS[cls])
        else:
            r.open(f'state {k}: the error test of the path is not seen')
