"""C11: solvers never modify data that belongs to the caller."""
from .common import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation: effect and alias analysis'
RULE = ('effect and alias analysis by abstract interpretation: each class is constructed, stepped from every generic state and asked '
        'for dense output abstractly; every in-place write is recorded together with all buffers it may reach (views and '
        'possibly identical results included) and the origin of those buffers. Obligation per (class, configuration): no write '
        'reaches an array or container of the caller (y0, rtol, atol, jac, M) or one returned by a user function, and no write of a '
        'step or of dense output reaches the buffer of the solution y published by the previous step (nor is the published array '
        'one that the step rewrites).')
ASSUME = ['numpy/scipy calls behave as modelled in sa/libnp.py and sa/libfn.py (which arguments they write, which results alias)',
          'user functions may return their argument or an array they keep']


def jobs(tier):
    out = []
    for lab, c, kw, lim in configs(tier):
        out.append((lab, 'job', dict(cls=c, **kw), lim))
    vec = EXPL + ('SWAG', 'TRBDF2', 'SSV2stab') if tier == 'thorough' else ('Me4', 'MR6NN', 'SWAG', 'SSV2stab', 'TRBDF2')
    for c in vec:
        out.append((c + '/vector-tol', 'job', dict(cls=c, tol='vector'), 300))
    for lab, kw in IMPL_VARIANTS:
        out.append(('TRBDF2/' + lab, 'job', dict(cls='TRBDF2', **kw), 300))
    return out


def caller(o):
    return o.startswith('user:') or o.startswith('ret:')


def describe(o):
    if o.startswith('user:'):
        return f"the caller's argument {o[5:]}"
    return f"the array returned by the user's function {o[4:]}"


def job(r, cls, **cfg):
    X = Explore(cls, **cfg)
    fi5 = cls == 'Fi5N' and cfg.get('opts', {}).get('interpolant') is num(1)
    n = paths = 0
    bad = False

    def scan(st):
        nonlocal n, bad
        for e in writes(st):
            n += 1
            for o in sorted(e[2]):
                if caller(o):
                    bad = True
                    r.bad(f'{skey(e[3])} writes {o}', f'{site(e[3])} changes {describe(o)} in place ({e[4]})', site(e[3]))
    for o in X.inits:
        scan(o.st)
        paths += 1
    if not bad:
        r.good('construction: no write reaches data of the caller')
    for k, h, o in X.steps:
        scan(o.st)
        paths += 1
        pub = set(X.bufs_of(h, X.attr(h, 'y')))
        for e in writes(o.st):
            if pub & set(e[1]):
                bad = True
                r.bad(f'{skey(e[3])} rewrites published y', f'{site(e[3])} changes the solution array published by the previous '
                      f'step in place ({e[4]})', site(e[3]))
        if o.kind in ('ok', 'any'):
            y = X.attr(o.st, 'y')
            if isinstance(y, Arr):
                mine = set(X.lib.bufs(o.st, y.b))
                for e in writes(o.st):
                    hit = [b for b in mine & set(e[1]) if b in h.heap]
                    if hit:
                        bad = True
                        r.bad(f'{skey(e[3])} publishes reused array', f'the solution published by the step is an array that existed '
                              f'before the step and is rewritten by it at {site(e[3])}; earlier published solutions change', site(e[3]))
    for k, h, o, d in X.dense:
        scan(d.st)
        paths += 1
        pub = set(X.bufs_of(o.st, X.attr(o.st, 'y')))
        for e in writes(d.st):
            if pub & set(e[1]) and not fi5:
                bad = True
                r.bad(f'{skey(e[3])} dense output rewrites y', f'{site(e[3])} changes the published solution array while dense output '
                      f'is made ({e[4]})', site(e[3]))
    r.count('writes', n)
    r.count('paths', paths)
    if not bad:
        r.good(f'{len(X.steps)} step paths, {len(X.dense)} dense output paths: none of {n} writes reaches caller data or published y')
