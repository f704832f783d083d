"""C10: error control is equivariant under rescaling and complex rotation of the state."""
from .common import *
from sa import grade as G
from sa import interp as _interp

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation, inference of homogeneity degrees and complex phase over value numbers'
RULE = ('every quantity has a degree in the unit of the state (y, atol: 1; rtol, t: 0; F: 1 if its arguments have degree 1 and 0) and a degree in a '
        'complex factor of modulus one. Over all value numbers of construction, of a step from every generic state, and of the conditions tested on the way: '
        'terms of a sum, both sides of a comparison, arguments of a minimum or maximum and merged values have equal degrees, comparisons and '
        'maxima have phase zero. A definite difference is a violation.')
ASSUME = ['numpy calls behave as modelled in sa/libnp.py', 'zero, infinity and the smallest positive number have every degree']

Z = Fr(0)


def jobs(tier):
    out = []
    for c in HEAVY + FAST:
        out.append((c, 'job', dict(cls=c, cfg={}), 110 if tier == 'quick' else 400))
    if tier == 'thorough':
        for c in IMPL:
            for lab, kw in IMPL_VARIANTS:
                out.append((f'{c}/{lab}', 'job', dict(cls=c, cfg=kw), 400))
    return out


SYMS = {'n': G.NIL, 'D': (Z, Z, 1, 0), 'L': (Z, Fr(1), 0, 0), 't_bound': (Z, Fr(1), 1, 0), 't0': (Z, Fr(1), 1, 0), 'rtol': G.NIL,
        'atol': (Fr(1), Z, 0, 0), 'max_step': (Z, Fr(1), 0, 0), 'first_step': (Z, Fr(1), 0, 0), 'y0': (Fr(1), Z, 0, 1),
        'y0_x': (Fr(1), Z, 0, 1), 'y0_v': (Fr(1), Fr(-1), 1, 1), 'epsneg': G.NIL, 'eps': G.NIL, 'tiny': G.ANY}


def base(a):
    if a.kind == 'sym':
        n = str(a.args[0]).split('.')[-1]
        g = SYMS.get(n)
        if g is None:
            g = SYMS.get(str(a.args[0]))
        if g is None and n.startswith('M_m'):
            g = G.NIL
        if g is None and n.startswith('jac_m'):
            g = (Z, Fr(-1), 1, 0)
        if g is None and n.startswith('atol_v'):
            g = (Fr(1), Fr(-1) if n.endswith('1') else Z, 0, 0)
        if g is None and n.startswith('rtol_v'):
            g = G.NIL
        return g
    if a.kind == 'mu' and a.args[1] == 'R':
        return (Z, Fr(1), 0, 0)
    return None


def known(g, v):
    x = g.memo.get(v)
    return x is G.ANY or x is not None and x[0] is not None


class Watch:
    """all conditions on which the analysed code branches, with the function"""

    def __init__(self):
        self.conds = {}

    def __enter__(self):
        self.old = _interp.Interp.branch
        w = self

        def branch(I, v, st):
            c = I.lib.truthy(I, st, v)
            if isinstance(c, Cond) and c not in w.conds:
                w.conds[c] = repo_fn(I.cur)
            return w.old(I, v, st)
        _interp.Interp.branch = branch
        return self

    def __exit__(self, *a):
        _interp.Interp.branch = self.old


def probes(W):
    """conditions tested in a constructor: probes of the user's function with arbitrarily changed states"""
    return [c for c, (m, f) in W.conds.items() if f.endswith('__init__')]


def increment(p):
    """a multiple of a root of the unit roundoff: an increment for difference quotients"""
    def eps(a):
        return any(b.kind == 'sym' and str(b.args[0]).split('.')[-1] in ('epsneg', 'eps') for b in walk(a) if isinstance(b, Atom))

    def root(a, e):
        if a.kind == 'op' and a.args[0] == 'pow':
            c = a.args[2].const if isinstance(a.args[2], Poly) else None
            return (c is None or 0 < c < 1) and eps(a)
        if a.kind == 'op' and a.args[0] == 'nextafter':
            return eps(a)
        if a.kind == 'ite':
            return any(increment(x) for x in a.args[1:])
        return a.kind == 'sym' and Fr(e).denominator != 1 and eps(a)
    return isinstance(p, Poly) and any(root(ATOMS[i], e) for m in p.terms for i, e in m)


def values(X, W):
    out = [(f'{m.split(".")[-1]}.{f}', c) for c, (m, f) in W.conds.items()]
    for what, outs in (('construction', X.inits), ('step', [o for k, h, o in X.good])):
        for o in outs:
            if o.kind == 'exc':
                continue
            for n, v in o.st.o(X.inst.a).d.items():
                if isinstance(n, str):
                    for _, x in X.scalars(o.st, v):
                        out.append((f'{what}: {n}', x))
    return out


def explore(cls, cfg):
    W = Watch()
    with W:
        X = Explore(cls, dense=False, **cfg)
    return X, W


def job(r, cls, cfg):
    cfg = dict(cfg, first_step='sym')
    if cls != 'SSV2stab':
        cfg['complex_'] = True
    X, W = explore(cls, cfg)
    vs = values(X, W)
    g = G.Grader(base, cls in RKN)
    bad = g.run(vs, skip=probes(W))
    r.count('values', len(vs))
    r.count('conditions', len(W.conds))
    if bad is None:
        r.open('degrees do not stabilise')
        return
    tell(r, cls, bad, (G.S, G.C) if cls != 'SSV2stab' else (G.S,), vs)
    r.count('values of known degree', sum(1 for o, v in vs if isinstance(v, Poly) and known(g, v)))


def tell(r, cls, bad, comps, vs):
    n = 0
    for comp, what, parts, origin in bad:
        if comp not in comps or what in ('sum', 'choice') and any(increment(p) for p in parts):
            continue
        n += 1
        r.bad(f'{cls} {G.NAMES[comp]} {what} {origin}', f'{what} with different {G.NAMES[comp]}: '
              + ' and '.join(show(p, 3)[:110] if isinstance(p, Poly) else str(p)[:110] for p in parts) + f' (in {origin})', METHODS[cls])
    if not n:
        r.good(f'{len(vs)} values and conditions are homogeneous')
