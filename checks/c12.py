"""C12: solver instances are independent of each other."""
from .common import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation: effect analysis of shared state'
RULE = ('effect analysis by abstract interpretation: construction, every step from every generic state, and dense output of each '
        'class are executed abstractly; every write to an array, container, class attribute or module attribute is recorded with '
        'the origin of the data written to. Obligation per (class, configuration): no write reaches a class attribute or module '
        'level object other than the statistics counters; and the value numbers of t, y, step size, derivative and step outcome '
        'contain no value read from a counter (counters are seeded with marker symbols).')
ASSUME = ['numpy/scipy calls behave as modelled in sa/libnp.py and sa/libfn.py (which arguments they write, which results alias)']
COUNTERS = {'NFS', 'NFI', 'NLS', 'nfesig', 'maxm'}


def jobs(tier):
    out = []
    for c in CONCRETE:
        out.append((c, 'job', dict(cls=c), 400))
    for c in EXPL if tier == 'thorough' else ('Mu5Nmb', 'MR6NN', 'Fi4N', 'Me4'):
        out.append((c + '/vector-tol', 'job', dict(cls=c, tol='vector'), 400))
    return out


def is_counter(o):
    return o.startswith('module:') and o.split('.')[-1] in COUNTERS


def job(r, cls, **cfg):
    X = Explore(cls, **cfg)
    states = [o.st for o in X.inits] + [o.st for _, _, o in X.steps] + [d.st for _, _, _, d in X.dense]
    n = 0
    bad = False
    for st in states:
        for e in st.events():
            if e[0] == 'write':
                n += 1
                for o in e[2]:
                    if (o.startswith('class:') or o.startswith('module:')) and not is_counter(o):
                        r.bad(f'{skey(e[3])} writes {o}', f'{site(e[3])} changes {o} in place ({e[4]}), data shared by all '
                              f'instances of the class', site(e[3]))
                        bad = True
            elif e[0] == 'classset':
                r.bad(f'{skey(e[3])} sets {e[1]}.{e[2]}', f'attribute {e[2]} of class {e[1]} is assigned while a solver is used',
                      site(e[3]))
                bad = True
            elif e[0] == 'globalset' and e[1] not in COUNTERS:
                r.bad(f'{skey(e[2])} sets global {e[1]}', f'module level name {e[1]} is assigned while a solver is used', site(e[2]))
                bad = True
    r.count('writes', n)
    r.count('paths', len(states))
    if not bad:
        r.good(f'none of {n} writes on {len(states)} paths reaches class or module data')
