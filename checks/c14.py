"""C14: evaluation and event counters are exact."""
from .common import *
from .c07 import steplike
from sa import interp as _interp

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation with ghost counters: balance of calls and counter increments on every path'
RULE = ('a ghost variable holds, for every abstract state, the number of evaluations of the user function (Jacobian evaluations, LU '
        'factorisations, linear solves) minus the increase of nfev (njev, nlu, NLS). It must be zero after construction, after a step from '
        'every generic state and after dense output (evaluations made in functions that approximate a Jacobian or spectral radius, find '
        'consistent initial conditions, or choose the first step of an implicit method are exempt). Every repetition of the attempt loop '
        'must increase NFS + NFI by one, leaving the loop must not. The statistics are zero after construction whatever they were before. '
        'Every evaluation of the user function must happen inside the wrapper made by the solver base class.')
ASSUME = ['the functions that approximate a Jacobian, spectral radius or initial condition are recognised by their names (jac, rho, consist, h_start)']

NAMES = {'nfev': 'evaluations of the right-hand side', 'njev': 'evaluations of the Jacobian', 'nlu': 'LU factorisations',
         'NLS': 'linear solves'}


def jobs(tier):
    out = []
    for lab, c, kw, lim in configs(tier):
        out.append((lab, 'job', dict(cls=c, cfg=kw), 110 if tier == 'quick' else lim))
    out.append(('TRX2/jac', 'job', dict(cls='TRX2', cfg=dict(opts=dict(jac=jac_opt))), 110))
    out.append(('TRBDF2/const-jac', 'job', dict(cls='TRBDF2', cfg=dict(opts=dict(jac=mat_opt('jac')))), 110))
    out.append(('TRX2/sparse-jac', 'job', dict(cls='TRX2', cfg=dict(opts=dict(jac=mat_opt('jac', True)))), 110))
    out.append(('Ts5/vectorized', 'job', dict(cls='Ts5', cfg=dict(vectorized=True)), 110))
    out.append(('TRX2/vectorized', 'job', dict(cls='TRX2', cfg=dict(vectorized=True)), 110))
    out.append(('Fi4N/vectorized', 'job', dict(cls='Fi4N', cfg=dict(vectorized=True)), 110))
    for c in ('Pr8', 'CFMR7osc', 'MR6NN'):
        out.append((c + '/stiffness', 'job', dict(cls=c, cfg=dict(opts=dict(nfev_stiff_detect=num(5000)))), 110))
    if tier == 'thorough':
        for c in IMPL:
            for lab, kw in IMPL_VARIANTS:
                out.append((f'{c}/{lab}', 'job', dict(cls=c, cfg=kw), 400))
    return out


def exempt(chain, cls, what):
    for m, f in chain:
        n = f.split('.')[-1].lower()
        f = f.lower()
        if 'consist' in f:
            return True
        if what == 'nfev' and ('jac' in n or 'rho' in n or cls in IMPL and n == 'h_start'):
            return True
    return False


class Ghost:
    """balances, kept in an object of the abstract heap"""

    def __init__(self, cls):
        self.cls = cls
        self.I = None
        self.sites = {}

    def start(self, R):
        self.I = R.I
        st = R.st
        self.bufs = {}
        for a, o in list(st.heap.items()):
            for x in o.meta.get('orig', ()) if o.kind == 'buf' else ():
                if x.startswith('module:'):
                    n = x.split('.')[-1]
                    if set(o.d) == {()} and isinstance(o.d[()], Poly):
                        self.bufs[n] = a
                        st.w(a).d[()] = sym('before_' + n)
        for k in ('nfev', 'njev', 'nlu', 'NLS'):
            st.w(0).d['$' + k] = ZERO
        old = R.lib.setitem_arr
        g = self

        def setitem_arr(I, st, a, idx, v):
            n = next((n for n, b in g.bufs.items() if b == a.b), None)
            u = st.o(a.b).d.get(())
            old(I, st, a, idx, v)
            if n == 'NLS':
                g.add(st, 'NLS', add(u, neg(st.o(a.b).d[()])))
        R.lib.setitem_arr = setitem_arr
        _interp.HOOK[0] = self.hook

    def zero(self, st):
        st = st.fork()
        for k in NAMES:
            st.w(0).d['$' + k] = ZERO
        return st

    def add(self, st, k, d):
        o = st.w(0).d
        if '$' + k in o:
            o['$' + k] = add(o['$' + k], d)

    def hook(self, st, e):
        if 0 not in st.heap or '$nfev' not in st.heap[0].d:
            return
        c = self.I.cur
        if e[0] == 'ucall' and e[1] == 'F':
            if not exempt(c, self.cls, 'nfev'):
                self.add(st, 'nfev', ONE)
        elif e[0] == 'ucall' and e[1] == 'jac' or e[0] == 'libcall' and e[1].endswith('num_jac'):
            if not exempt(c, self.cls, 'njev'):
                self.add(st, 'njev', ONE)
        elif e[0] == 'lu':
            self.add(st, 'nlu', ONE)
        elif e[0] == 'lusolve':
            self.add(st, 'NLS', ONE)
        elif e[0] == 'setattr' and e[2] in ('nfev', 'njev', 'nlu'):
            u = st.o(e[1]).d.get(e[2])
            if isinstance(u, Poly) and isinstance(e[4], Poly) and not exempt(c, self.cls, e[2]):
                self.add(st, e[2], add(u, neg(e[4])))


def job(r, cls, cfg):
    g = Ghost(cls)
    import sa.explore as ex
    Run0 = ex.Run

    class RunG(Run0):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            g.start(self)

        def step(self, inst, st):
            outs = Run0.step(self, inst, g.zero(st))
            for o in outs:
                o.ghost = dict(o.st.heap[0].d)
                o.st = g.zero(o.st)
            return outs
    ex.Run = RunG
    try:
        cfg = dict(cfg)
        X = Explore(cls, dense=True, **cfg)
    finally:
        ex.Run = Run0
    w = f'{METHODS[cls]}.{cls}'
    where = METHODS[cls]

    def balance(st, gh, ks, what):
        for k in ks:
            d = (gh or st.heap[0].d).get('$' + k)
            if not isinstance(d, Poly):
                d = None
            r.count('balances')
            if d is not None and d.const is None and onesided(d):
                r.bad(f'{w} {k} {what.split(" ")[0]}', f'{cls}: {k} is increased {"less" if onesided(d) > 0 else "more"} often than there are {NAMES[k]} in '
                      f'{what}{callers(st, k)}', where)
            elif d is None or d.const is None:
                r.open(f'{what}: balance of {k} not constant')
            elif d.const != 0:
                s = callers(st, k)
                r.bad(f'{w} {k} {what.split(" ")[0]}', f'{cls}: {k} differs by {-d.const} from the number of {NAMES[k]} in {what}{s}', where)
            else:
                r.good(f'{what}: {k}')

    for o in X.inits:
        if o.kind == 'ok':
            balance(o.st, None, ('nfev', 'njev'), 'construction')
            use = ['NFS'] + (['NFI', 'NLS'] if cls in IMPL else []) + (['nfesig', 'maxm'] if cls == 'SSV2stab' else [])
            for n in use:
                b = g.bufs.get(n)
                v = o.st.o(b).d.get(()) if b in o.st.heap else None
                if not isinstance(v, Poly):
                    r.open(f'counter {n} not found')
                elif v.const == 0:
                    r.good(f'{n} starts at zero')
                elif any(the_atom(sym('before_' + n)) is a for a in walk(v)) or v.const is not None:
                    r.bad(f'{w} reset {n}', f'{cls}: the counter {n} is {v} after the construction of a solver, not zero', where)
                else:
                    r.open(f'{n} after construction: {str(v)[:60]}')
    for k, h, o in X.good:
        balance(o.st, o.ghost, ('nfev', 'njev', 'nlu', 'NLS'), f'step from state {k}')
    for k, h, o, d in X.dense:
        if d.kind == 'ok':
            balance(d.st, None, ('nfev', 'njev', 'nlu', 'NLS'), f'dense output in state {k}')
    raw = set()
    sts = [o.st for o in X.inits] + [o.st for k, h, o in X.steps] + [d.st for k, h, o, d in X.dense]
    n = 0
    for st in sts:
        for e in st.events():
            if e[0] == 'ucall' and e[1] == 'F':
                n += 1
                if not e[5][-1][0].startswith('scipy.'):
                    raw.add(e[5][-1])
    r.count('evaluations of the user function', n)
    for m, f in sorted(raw):
        r.bad(f'{m}:{f} raw call', f'{cls}: the right-hand side of the user is called directly, not through the wrapper of the solver', f'{m}:{f}')
    if n and not raw:
        r.good('all evaluations go through the wrapper')
    attempts(r, X, cls, g)


def callers(st, k):
    kinds = {'nfev': ('ucall',), 'njev': ('ucall',), 'nlu': ('lu',), 'NLS': ('lusolve',)}[k]
    s = set()
    for e in st.events():
        if e[0] in kinds and len(e) > 5 and e[0] == 'ucall':
            s.add(repo_fn(e[5]))
    return ' (called in ' + ', '.join(sorted(f for m, f in s))[:120] + ')' if s else ''


def attempts(r, X, cls, g):
    # only statements in this module: NFS and NFI
    seen = {}
    for k in range(len(X.heads)):
        for l in X.R.heads[k]['loops']:
            if not l['mod'][0].startswith('extensisq'):
                continue
            # an attempt loop can end the step with failure
            fails = any(isinstance(v, tuple) and v and v[0] is False for vs in l['rets'] for v in vs)
            for (hs, backs), exits in zip(l['heads'], l['left']):
                step = fails and any(changes_step(X, l, hs, b) for b in backs)
                if not step:
                    continue
                key = (l['mod'], l['line'])
                where = f'{l["mod"][0].replace(".", "/")}.py:{l["mod"][1]}:{l["line"]}'
                tot = seen.setdefault(key, {'NFS': 0, 'NFI': 0, 'open': 0, 'where': where})
                for j, b in enumerate(backs):
                    d = {n: delta(hs, b, g.bufs.get(n)) for n in ('NFS', 'NFI')}
                    r.count('repetitions')
                    if None in d.values():
                        r.open(f'{where} state {k} repetition {j}: counters not constant')
                        tot['open'] += 1
                        continue
                    for n in d:
                        tot[n] += d[n] != 0
                    if sorted(d.values()) == [0, 1]:
                        r.good(f'{where} state {k} repetition {j}: ' + ('NFS' if d['NFS'] else 'NFI'))
                    else:
                        r.bad(f'{l["mod"][0]}:{l["mod"][1]} repetition', f'{cls}: an attempt is repeated with NFS + {d["NFS"]}, NFI + {d["NFI"]}; '
                              'exactly one of them should be increased by one', where)
                for x in exits:
                    d = {n: delta(hs, x, g.bufs.get(n)) for n in ('NFS', 'NFI')}
                    if None in d.values():
                        r.open(f'{where} state {k}: counters not constant at acceptance')
                    elif any(d.values()):
                        r.bad(f'{l["mod"][0]}:{l["mod"][1]} accepted', f'{cls}: an accepted attempt increases NFS by {d["NFS"]}, NFI by {d["NFI"]}', where)
                    else:
                        r.good(f'{where} state {k}: no count at acceptance')
    for key, t in seen.items():
        need = ['NFS'] + (['NFI'] if cls in IMPL else [])
        for n in need:
            if not t[n] and not t['open']:
                r.bad(f'{key[0][0]}:{key[0][1]} {n}', f'{cls}: no repetition of the attempt is counted in {n}', t['where'])
        if cls not in IMPL and t['NFI']:
            r.bad(f'{key[0][0]}:{key[0][1]} NFI', f'{cls}: a rejection by the error test is counted in NFI', t['where'])


def changes_step(X, l, hs, b):
    for a in (l['env'], X.inst.a):
        if a in hs.heap and a in b.heap:
            for n, v in hs.o(a).d.items():
                w = b.o(a).d.get(n)
                if isinstance(v, Poly) and v.const is None and isinstance(w, Poly) and w is not v and 'nfev' not in n and steplike(v, b):
                    return True
    return False


def onesided(v):
    """sign of a balance that is not constant, but of the same sign wherever it is not zero (0 if not known)"""
    sg = {v: set()}
    new = [v]
    while new:
        p = new.pop()
        for m, c in p.terms.items():
            for i, e in m:
                for q in parts(ATOMS[i]):
                    if q is None:
                        return 0
                    if q not in sg:
                        sg[q] = set()
                        new.append(q)
    while True:
        old = sum(len(x) for x in sg.values())
        for p, s in sg.items():
            for m, c in p.terms.items():
                t = {1 if c > 0 else -1}
                for i, e in m:
                    t = {x * y if e % 2 else x for x in t for q in parts(ATOMS[i]) for y in sg[q]}
                s |= t
        if sum(len(x) for x in sg.values()) == old:
            break
    return sg[v].pop() if len(sg[v]) == 1 else 0


def parts(a):
    ps = MU_SOURCES.get(a.id, ()) if a.kind == 'mu' else a.args[1:] if a.kind == 'ite' else ()
    return [p if isinstance(p, Poly) else None for p in ps] or [None]


def delta(a, b, buf):
    if buf is None or buf not in a.heap or buf not in b.heap:
        return None
    u, v = a.o(buf).d.get(()), b.o(buf).d.get(())
    if isinstance(u, Poly) and isinstance(v, Poly):
        c = add(v, neg(u)).const
        return None if c is None else int(c)
    return None
