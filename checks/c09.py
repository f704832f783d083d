"""C09: integration is equivariant under time reversal and rescaling of time."""
from .common import *
from .c10 import base, probes, Watch, values, explore, tell, known
from sa import grade as G

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation, inference of parity under time reversal and of degrees in the unit of time over value numbers'
RULE = ('every quantity has a parity under reversal of time (t, t_bound, direction and F odd; y, lengths, tolerances even) and a degree in the unit of time '
        '(t, max_step, first_step: 1; F: -1). Over all value numbers of construction, of a step from every generic state, and of the '
        'conditions tested on the way: terms of a sum, both sides of a comparison, arguments of a minimum or maximum and merged values agree '
        'in parity and degree; comparisons, minima and maxima involve even quantities only. A definite difference is a violation.')
ASSUME = ['numpy calls behave as modelled in sa/libnp.py', 'zero, infinity and the smallest positive number have every degree']


def jobs(tier):
    out = []
    for c in HEAVY + FAST:
        out.append((c, 'job', dict(cls=c, cfg={}), 110 if tier == 'quick' else 400))
        if c in EXPL:
            out.append((c + '/first step', 'job', dict(cls=c, cfg=dict(first_step='sym')), 110))
    if tier == 'thorough':
        for c in IMPL:
            for lab, kw in IMPL_VARIANTS:
                out.append((f'{c}/{lab}', 'job', dict(cls=c, cfg=kw), 400))
    return out


def job(r, cls, cfg):
    # positions and velocities have different units of time: the automatic first step and one absolute tolerance mix them
    comps = (G.P,)
    cfg = dict(cfg)
    if cls in RKN:
        if cfg.get('first_step'):
            cfg['tol'] = 'vector'
            comps = (G.P, G.T)
    else:
        comps = (G.P, G.T)
    X, W = explore(cls, cfg)
    vs = values(X, W)
    g = G.Grader(base, cls in RKN)
    bad = g.run(vs, skip=probes(W))
    r.count('values', len(vs))
    r.count('conditions', len(W.conds))
    if bad is None:
        r.open('degrees do not stabilise')
        return
    tell(r, cls, bad, comps, vs)
    r.count('values of known degree', sum(1 for o, v in vs if isinstance(v, Poly) and known(g, v)))
