"""Helpers shared by the checks."""
from sa.explore import *

ALL = tuple(METHODS)
EXPL = RK + RKN
FAST = EXPL + ('SWAG',)
CONCRETE = EXPL + ('SWAG', 'SSV2stab') + IMPL
HEAVY = ('KC4Ia', 'KC4I', 'SSV2stab', 'KC3I', 'Kv3I', 'TRBDF2', 'TRX2')


def writes(st):
    for e in st.events():
        if e[0] == 'write':
            yield e


def repo_fn(chain):
    """the innermost function of the repository in a chain of calls"""
    for m, f in reversed(chain):
        if m.startswith('extensisq'):
            return m, f
    return chain[-1]


# configurations ------------------------------------------------------------
def mat_opt(name, sparse=False):
    """option given as an n x n array of the caller"""
    def f(run, st):
        L = run.lib
        segs = L.axis_of(run.size)
        data = {(i, j): sym(f'{name}_m{i}{j}', axis=True) for i in range(len(segs)) for j in range(len(segs))}
        a = L.mkarr(st, (segs, segs), data, orig=frozenset(['user:' + name]))
        if sparse:
            st.w(a.b).meta['sparse'] = True
        return a
    return f


def jac_opt(run, st):
    """option jac given as a function"""
    L = run.lib

    def call(I, st, args, kw):
        t, y = args[0], args[1]
        s, c = L.asarr(st, y)
        st.event('ucall', 'jac', I.site(), t, tuple(c.values()) if s is not None else None,
                 tuple(I.cur))
        segs = L.axis_of(run.size)
        ys = [L.topoly(c[p]) for p in sorted(c)]
        data = {}
        for i in range(len(segs)):
            for j in range(len(segs)):
                a = atom('app', 'jac', t, tuple(ys), num(i), (num(j),))
                if a.info is None:
                    a.info = Info({'axis': True, 'nan': True})
                data[(i, j)] = of_atom(a)
        return [(L.mkarr(st, (segs, segs), data, orig=frozenset(['ret:jac'])), st)]
    return Builtin('user.jac', call)


VARIANTS = {
    'BS5': [('best', dict(opts=dict(interpolant='best'))), ('free', dict(opts=dict(interpolant='free')))],
    'Mu5Nmb': [('free', dict(opts=dict(interpolant='free')))],
    'Fi5N': [('interpolant-1', dict(opts=dict(interpolant=num(1)))), ('interpolant-2', dict(opts=dict(interpolant=num(2)))),
             ('interpolant-3', dict(opts=dict(interpolant=num(3))))],
    'KC3I': [('C1', dict(opts=dict(interpolant='C1')))],
    'KC4I': [('C1', dict(opts=dict(interpolant='C1')))],
    'KC4Ia': [('C1', dict(opts=dict(interpolant='C1')))],
}
IMPL_VARIANTS = [('jac', dict(opts=dict(jac=jac_opt))), ('const-jac', dict(opts=dict(jac=mat_opt('jac')))),
                 ('M', dict(opts=dict(M=mat_opt('M'))))]


def configs(tier, heavy_variants=()):
    """(label, class, configuration, time limit): every class in its default configuration, and variants"""
    out = []
    for c in HEAVY:
        out.append((c, c, {}, 400))
    for c in FAST:
        out.append((c, c, {}, 200))
    for c in CONCRETE:
        if c in EXPL or tier == 'thorough':
            for lab, kw in VARIANTS.get(c, []):
                out.append((f'{c}/{lab}', c, kw, 400))
    return out
