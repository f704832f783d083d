"""C15: documented options are accepted, validated and effective."""
from .common import *
from sa import interp as _interp

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of construction: state comparison between option values, dependence of steps on symbolic options'
RULE = ('every class is constructed abstractly with each documented option. A documented value must lead to a solver on some path, '
        'without the warning for unknown options; a value outside of the documented range must lead to an error on every path, an unknown option name '
        'to a warning on every path. The state of the solver without the option equals its state with the documented default, and differs '
        'from its state with another value. With symbolic values of the numerical options, a step from a generic state must depend on them '
        '(in a condition or in a value that is stored).')
ASSUME = ['numpy calls behave as modelled in sa/libnp.py', 'documented options and defaults are those of the class docstrings, listed in checks/c15.py']

SC = {**{c: 'G' for c in EXPL + IMPL if c != 'CKdisc'}, 'BS5': 'standard', 'Pr7': 'S', 'Pr9': 'standard'}
# documented parameters of the predefined step size controllers
PRE = {'G': ('7/10', '-2/5', '0', '9/10'), 'S': ('3/5', '-1/5', '0', '9/10'), 'W': ('2', '-1', '-1', '4/5'), 'standard': ('1', '0', '0', '9/10')}
PRE_IMPL = {'G': ('2', '-1', '-1', '4/5'), 'S': ('11/10', '-7/10', '-1', '4/5'), 'standard': ('1', '0', '0', '4/5')}
INTERP = {'BS5': ('low', ['best', 'low', 'free']), 'Fi5N': (0, [0, 1, 2, 3]), 'Mu5Nmb': ('better', ['better', 'free']),
          'KC3I': ('C0', ['C0', 'C1']), 'KC4I': ('C0', ['C0', 'C1']), 'KC4Ia': ('C0', ['C0', 'C1']), 'Kv3I': ('C0', ['C0', 'C1'])}
STIFF = [c for c in EXPL if c not in ('CKdisc', 'MR6NN')]


def jobs(tier):
    out = [(c, 'job', dict(cls=c), 110 if tier == 'quick' else 300) for c in CONCRETE]
    for c in CONCRETE:
        out.append((c + '/step', 'effect', dict(cls=c), 100 if tier == 'quick' else 600))
    return out


def n_(x):
    if isinstance(x, bool) or not isinstance(x, (int, float, Fr)):
        return x
    return num(Fr(x))


def documented(c):
    """option -> (default, other valid values, invalid values); NONE: no value is the default"""
    o = {}
    if c in SC:
        o['sc_params'] = (SC[c], [x for x in ('standard', 'G', 'S', 'W') if x != SC[c]] + [tuple(num(Fr(x)) for x in ('3/10', '1/5', '1/10', '4/5'))],
                          ['nonsense', (ONE, ONE), (ONE, ONE, ONE, ONE, ONE), ONE])
    if c in INTERP:
        d, ch = INTERP[c]
        o['interpolant'] = (n_(d), [n_(x) for x in ch if x != d], ['nonsense', num(7), num(-1)])
    if c in STIFF:
        o['nfev_stiff_detect'] = (num(5000), [ZERO, num(250)], [num(-1), num(Fr(3, 2)), 'nonsense', None])
    if c == 'Mu5Nmb':
        o['scale_embedded'] = (True, [False], [])
    if c == 'SWAG':
        o['k_max'] = (num(12), [num(1), num(5)], [ZERO, num(13), num(-1), num(Fr(5, 2)), 'nonsense', None])
    if c == 'SSV2stab':
        o['const_jac'] = (False, [True], [ONE, ZERO, None, 'nonsense'])
        o['rho_jac'] = (None, [rho], ['nonsense', num(3), True])
    if c in IMPL:
        o['jac'] = (None, [jac_opt, mat_opt('jac'), mat_opt('jac', True)], [shape('jac', 1), shape('jac', -1)])
        o['jac_sparsity'] = (None, [], [])
        o['M'] = (None, [mat_opt('M'), mat_opt('M', True)], [shape('M', -1)])
        o['jac_each_step'] = (False, [True], [])
    o['max_step'] = (INF, [], [ZERO, num(-1)])
    o['first_step'] = (None, [], [ZERO, num(-1)])
    return o


INF = object()


def rho(run, st):
    def call(I, st, args, kw):
        return [(sym('rho_any', pos=True, float=True), st)]
    return Builtin('user.rho', call)


def shape(name, k):
    """an array of the wrong shape: a vector or a matrix of another size"""
    def f(run, st):
        L = run.lib
        n = add(run.size, ONE)
        ax = [(n,)] if k == 1 else [(n,), (n,)]
        return L.mkarr(st, tuple(ax), {(0,) * len(ax): sym(f'{name}_wrong', axis=True)}, orig=frozenset(['user:' + name]))
    return f


# comparison of states ----------------------------------------------------
def image(st, v, seen, depth=0):
    """canonical form of a value"""
    if isinstance(v, (bool, str, bytes, int, float, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, (Poly, Cond)):
        return ('v', v.id if hasattr(v, 'id') else v)
    if isinstance(v, tuple):
        return ('t',) + tuple(image(st, x, seen, depth) for x in v)
    if isinstance(v, Arr):
        return ('arr', v.axes, v.fixed, buf(st, v.b, seen, depth))
    if isinstance(v, Ref):
        if v.a in seen:
            return ('seen', seen[v.a])
        seen[v.a] = len(seen)
        o = st.heap.get(v.a)
        if o is None:
            return ('gone',)
        if o.kind in ('class', 'module'):
            return (o.kind, o.meta.get('name', v.a))
        if o.kind == 'inst':
            return ('inst', tuple((k, image(st, x, seen, depth + 1)) for k, x in sorted(o.d.items()) if isinstance(k, str)))
        if isinstance(o.d, dict):
            return (o.kind, tuple((str(k), image(st, x, seen, depth + 1)) for k, x in o.d.items()))
        return (o.kind, tuple(image(st, x, seen, depth + 1) for x in o.d))
    return (type(v).__name__, getattr(v, 'name', None))


def buf(st, b, seen, depth):
    o = st.heap.get(b)
    if o is None or b in seen:
        return ('seen', seen.get(b))
    seen[b] = len(seen)
    return tuple((str(p), x if isinstance(x, (Poly, Cond)) else str(x)) for p, x in sorted(o.d.items(), key=lambda t: str(t[0])))


def attributes(o):
    st = o.st
    return {k: image(st, x, {o.val.a: 0}) for k, x in st.o(o.val.a).d.items() if isinstance(k, str)}


def common(outs):
    """attributes on all paths: attribute -> set of images"""
    res = {}
    for o in outs:
        for k, x in attributes(o).items():
            res.setdefault(k, set()).add(x)
    return res


def warned(o):
    """True: a warning on every path merged into this outcome; False: on none"""
    w = o.st.heap[0].d.get('$warn')
    return True if w is ONE else False if w is ZERO else None


def text(v):
    if isinstance(v, tuple):
        return '(' + ', '.join(text(x) for x in v) + ')'
    if callable(v):
        return {'jac_opt': 'a function', 'rho': 'a function'}.get(v.__name__, 'an array')
    return str(v) if isinstance(v, Poly) else repr(v)


class C:
    def __init__(self, cls, **cfg):
        self.cfg = dict(first_step='sym', max_step='sym', budget=1500000)
        self.cfg.update(cfg)
        self.R = Run(cls, repo=REPO, **self.cfg)

    def build(self, **kw):
        R = self.R
        st = R.st.fork()
        args, k = R.args(st)
        for n, v in kw.items():
            if v is INF:
                k.pop(n, None)
                v = of_float(float('inf'))
            k[n] = v(R, st) if callable(v) and not isinstance(v, Builtin) else v
        st.w(0).d['$warn'] = ZERO
        _interp.HOOK[0] = warn_ghost
        try:
            return R.construct_in(st, args, k)
        finally:
            _interp.HOOK[0] = None


def warn_ghost(st, e):
    """a ghost variable remembers on which paths a warning is given"""
    if e[0] in ('warn', 'extraneous') and 0 in st.heap and '$warn' in st.heap[0].d:
        st.w(0).d['$warn'] = ONE


def of_float(x):
    return x


def job(r, cls):
    c = C(cls)
    base = [o for o in c.build() if o.kind == 'ok']
    if not base:
        r.open('no construction')
        return
    for o in base:
        r.count('paths')
    quiet0 = any(warned(o) is not True for o in base)
    if not quiet0:
        r.bad(f'{cls} warning', 'a warning is given in every construction without options', METHODS[cls])
    ref = common(base)
    again = common([o for o in c.build() if o.kind == 'ok'])
    # results of library calls that are not followed differ between analyses
    fresh = {k for k in ref if ref[k] != again.get(k)}
    for name, (dflt, valid, invalid) in documented(cls).items():
        where = f'{METHODS[cls]}.{cls}'
        if name not in ('max_step', 'first_step'):
            outs = [o for o in c.build(**{name: dflt}) if o.kind == 'ok']
            r.count('values')
            if not outs:
                r.bad(f'{cls} {name} default', f'the documented default {name}={text(dflt)} is refused', where)
            else:
                q = common(outs)
                diff = [k for k in q if k in ref and k not in fresh and not (q[k] & ref[k]) and not fuzzy(q[k]) and not fuzzy(ref[k])] + \
                    [k for k in set(q) ^ set(ref)]
                if diff:
                    r.bad(f'{cls} {name} default', f'without the option {name} the solver differs from one with the documented default '
                          f'{text(dflt)} in: {", ".join(sorted(diff)[:4])}', where)
                else:
                    r.good(f'{name}: default {text(dflt)}')
                if quiet0 and all(warned(o) is True for o in outs):
                    r.bad(f'{cls} {name} default warning', f'a warning is given for the documented default {name}={text(dflt)}', where)
        for v in valid:
            r.count('values')
            allo = c.build(**{name: v})
            outs = [o for o in allo if o.kind == 'ok']
            if not outs:
                r.bad(f'{cls} {name} {text(v)}', f'the documented value {name}={text(v)} is refused: '
                      f'{[(o.exc.name, str(o.exc.args)[:80]) for o in allo if o.exc][:2]}', where)
                continue
            if quiet0 and all(warned(o) is True for o in outs):
                r.bad(f'{cls} {name} {text(v)}', f'a warning is given for the documented value {name}={text(v)}', where)
                continue
            q = common(outs)
            if fresh and set(q) == set(ref) and any(q[k] == x for k, x in common(
                    [o for o in c.build(**{name: v}) if o.kind == 'ok']).items() if k in fresh):
                r.good(f'{name}={text(v)} accepted, changes the solver')
                continue
            if cls in IMPL and name == 'sc_params' and v == 'W':
                r.good('W accepted')         # the implicit methods use the same parameters for "G" and "W"
                continue
            if set(q) == set(ref) and all(q[k] == ref[k] for k in q if k not in fresh) and not any(fuzzy(x) for x in q.values()):
                r.bad(f'{cls} {name} {text(v)}', f'{name}={text(v)} does not change anything in the solver', where)
            else:
                r.good(f'{name}={text(v)} accepted, changes the solver')
        for v in invalid:
            r.count('values')
            allo = c.build(**{name: v})
            outs = [o for o in allo if o.kind == 'ok']
            if outs and all(certain(o.st) for o in outs):
                r.bad(f'{cls} {name} {text(v)} invalid', f'the invalid value {name}={text(v)} is accepted', where)
            elif outs:
                r.open(f'{name}={text(v)} may be accepted')
            else:
                r.good(f'{name}={text(v)} refused')
    if cls in SC:
        predefined(r, c, cls, fresh)
    r.count('values')
    outs = [o for o in c.build(no_such_option=ONE) if o.kind == 'ok']
    bad = [o for o in outs if warned(o) is not True]
    if bad:
        r.bad(f'{cls} unknown option', 'an unknown option is accepted without a warning', METHODS[cls])
    else:
        r.good('unknown option: warning')
    vectorized(r, cls, ref)
    first(r, cls)


def predefined(r, c, cls, fresh):
    """the named controllers have the documented parameters"""
    for k, v in (PRE_IMPL if cls in IMPL else PRE).items():
        r.count('values')
        a = common([o for o in c.build(sc_params=k) if o.kind == 'ok'])
        b = common([o for o in c.build(sc_params=tuple(dec(x) for x in v)) if o.kind == 'ok'])
        diff = [n for n in a if n in b and n not in fresh and not (a[n] & b[n]) and not fuzzy(a[n]) and not fuzzy(b[n])]
        if diff:
            r.bad(f'{cls} sc_params {k}', f'sc_params="{k}" differs from the documented parameters ({", ".join(v)}) in: {", ".join(diff[:4])}',
                  f'{METHODS[cls]}.{cls}')
        else:
            r.good(f'sc_params="{k}" has the documented parameters')


def dec(x):
    return num(Fr(x))


def fuzzy(images):
    return any('unk' in str(i)[:2000] for i in images)


def certain(st):
    return not any(c.kind == 'opq' for c in st.facts)


def vectorized(r, cls, ref):
    c = C(cls, vectorized=True)
    outs = [o for o in c.build() if o.kind == 'ok']
    r.count('values')
    if not outs:
        r.bad(f'{cls} vectorized', 'vectorized=True is refused', METHODS[cls])
    else:
        q = common(outs)
        if 'vectorized' in q and q['vectorized'] == ref.get('vectorized'):
            r.bad(f'{cls} vectorized', 'vectorized=True is not passed to the base class', METHODS[cls])
        else:
            r.good('vectorized')


def holds(v, s, memo=None):
    """is the symbol part of a value?"""
    a = the_atom(s)
    if isinstance(v, (Poly, Cond)):
        return any(x is a for x in walk(v) if isinstance(x, Atom))
    return False


def first(r, cls):
    """first_step and max_step are used"""
    c = C(cls)
    for name, s in (('first_step', FIRST), ('max_step', MAXSTEP)):
        outs = [o for o in c.build() if o.kind == 'ok']
        r.count('values')
        found = False
        for o in outs:
            for k, v in o.st.o(o.val.a).d.items():
                if holds(v, s):
                    found = True
        if found:
            r.good(f'{name} is stored')
        elif outs:
            r.bad(f'{cls} {name}', f'{name} is not stored in the solver', METHODS[cls])


# effect on a step ---------------------------------------------------------
def effect(r, cls):
    opts = {}
    syms = {}
    if cls in SC:
        v = [sym(f'sc_{x}', real=True) for x in ('kb1', 'kb2', 'a')] + [sym('sc_g', pos=True)]
        opts['sc_params'] = tuple(v)
        for x, n in zip(v, ('kb1', 'kb2', 'a', 'g')):
            syms[f'sc_params ({n})'] = x
    if cls in STIFF and cls in ('BS5', 'Pr8', 'CFMR7osc', 'Pr7', 'Me4', 'Ts5', 'CK5', 'Pr9', 'Fi4N', 'Fi5N', 'Mu5Nmb'):
        s = sym('nfev_stiff', pos=True, int=True, lo=1)
        opts['nfev_stiff_detect'] = s
        syms['nfev_stiff_detect'] = s
    if cls == 'SWAG':
        s = sym('k_max', pos=True, int=True, lo=1)
        opts['k_max'] = s
        syms['k_max'] = s
    if cls == 'SSV2stab':
        opts['rho_jac'] = rho
        syms['rho_jac'] = sym('rho_any', pos=True, float=True)
    X = None
    seen = set()
    ids = {the_atom(s).id: n for n, s in syms.items()}
    ids[the_atom(MAXSTEP).id] = 'max_step'
    syms['max_step'] = MAXSTEP
    from sa import interp as _i
    old = _i.Interp.branch
    visited = set()

    def look(v):
        if isinstance(v, (Poly, Cond)) and v not in visited:
            visited.add(v)
            for a in walk(v):
                if isinstance(a, Atom) and a.id in ids:
                    seen.add(ids[a.id])

    stage = [0]

    def branch(self, v, st):
        if stage[0] and any(f == 'step' or f.endswith('_step_impl') for m, f in self.cur):
            look(self.lib.truthy(self, st, v))
        return old(self, v, st)
    reads = set()
    oldget = _i.Interp.getattr

    def getattr_(self, v, name, st):
        if any(f == 'step' or f.endswith('_step_impl') for m, f in self.cur):
            reads.add(name)
        return oldget(self, v, name, st)
    _i.Interp.branch, _i.Interp.getattr = branch, getattr_
    try:
        stage[0] = 1
        X = Explore(cls, dense=False, opts=opts)
    finally:
        _i.Interp.branch, _i.Interp.getattr = old, oldget
    # options that choose between two behaviours: what they set is read in a step
    c = C(cls)
    ref = common([o for o in c.build() if o.kind == 'ok'])
    for name, (dflt, valid, invalid) in documented(cls).items():
        if name not in ('jac_each_step', 'const_jac', 'scale_embedded', 'M'):
            continue
        for v in valid:
            r.count('obligations')
            q = common([o for o in c.build(**{name: v}) if o.kind == 'ok'])
            ch = [k for k in q if q[k] != ref.get(k)]
            if ch and not any(k in reads for k in ch):
                r.bad(f'{cls} {name} step', f'a step does not use what the option {name} sets ({", ".join(ch[:4])})', METHODS[cls])
            else:
                r.good(f'{name}={text(v)} is used in a step')
    for k, h, o in X.steps:
        r.count('paths')
        if o.kind == 'exc':
            continue
        d0, d1 = h.o(X.inst.a).d, o.st.o(X.inst.a).d
        for n, v in d1.items():
            if d0.get(n) is not v:
                for _, x in X.scalars(o.st, v):
                    look(x)
            elif isinstance(v, Arr):
                for _, x in X.scalars(o.st, v):
                    look(x)
        for c in o.st.facts:
            look(c)
    for n in syms:
        r.count('obligations')
        if n in seen:
            r.good(f'{n}: a step depends on it')
        else:
            r.bad(f'{cls} {n} step', f'no step depends on the option {n}', METHODS[cls])
