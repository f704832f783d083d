"""C18: stiffness detection never influences the computed solution."""
from .common import *
from sa.drive import UserFun

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation: noninterference (taint) analysis of the option nfev_stiff_detect'
RULE = ('the option nfev_stiff_detect is a symbolic non-negative integer (so that detection on, off and every frequency are one '
        'analysis). All solver attributes whose value depends on it, by data flow or through the condition of a merge of paths, are '
        'tainted (fixpoint over the generic states and over the merged values of all loops). No tainted value may reach t, y, the '
        'step size, or any attribute that influences them in a later step, nor the dense output, nor a condition for the failure '
        'of a step or an exception; detection writes no array that is shared with the state. Integer moduli in a step are not zero '
        'for any value of the option. With the value 0 every evaluation in a step is used: its result reaches the state or a decision.')
ASSUME = ['user functions do not change results when they are called more often',
          'numpy/scipy calls behave as modelled in sa/libnp.py and sa/libfn.py']
CONTROL = ('t', 'y', 't_old', 'status', 'direction')


def jobs(tier):
    out = [(c, 'job', dict(cls=c), 300) for c in RK + RKN]
    out += [(c + '/off', 'off', dict(cls=c), 300) for c in RK + RKN]
    if tier == 'thorough':
        for c in RK + RKN:
            for lab, kw in VARIANTS.get(c, []):
                out.append((f'{c}/{lab}', 'job', dict(cls=c, **kw), 300))
    return out


def job(r, cls, **cfg):
    nsd = sym('nfev_stiff_detect', int=True, nonneg=True, lo=0)
    opts = dict(cfg.pop('opts', {}), nfev_stiff_detect=nsd)
    X = Explore(cls, opts=opts, **cfg)
    src = the_atom(nsd).id
    # taint of attributes, to a fixpoint
    taint = set()           # (attribute, cell)
    while True:
        new = set()
        states = [(None, o.st) for o in X.ok] + [(k, o.st) for k, h, o in X.good]
        for k, st in states:
            mus = set(X.R.heads[k]['mus']) if k is not None else set()
            own = X.nodes(k) if k is not None else {}
            for n, v in st.o(X.inst.a).d.items():
                for key, x in X.scalars(st, v):
                    if isinstance(key, tuple) and key[:1] == ('buf',):
                        key = ('buf',)
                    if (n, key) not in taint and tainted(x, src, taint, mus, own):
                        new.add((n, key))
        if not new:
            break
        taint |= new
    names = {n for n, k in taint}
    inf = {n for n, k in X.influential()}
    bad = sorted(names & (inf | set(CONTROL)))
    for n in bad:
        r.bad(f'{cls}.{n}', f'attribute {n}, which determines the solution or the next steps, depends on nfev_stiff_detect', METHODS[cls])
    n = 0
    for k, h, o in X.steps:
        mus = set(X.R.heads[k]['mus'])
        own = X.nodes(k)
        if o.kind in ('fail', 'exc'):
            n += 1
            for c, b in o.st.facts.items():
                if tainted(c, src, taint, mus, own):
                    r.bad(f'{cls} {o.kind}', f'a step fails ({o.val if o.kind == "fail" else o.exc.name}) depending on nfev_stiff_detect: {str(c)[:120]}',
                          METHODS[cls])
        for e in o.st.events():
            if e[0] == 'mod':
                lo, hi, nan = e[2]
                r.count('moduli')
                if lo <= 0 <= hi and src in flow(e[1]):
                    r.bad(f'{skey(e[3])} modulo', f'the divisor {str(e[1])[:60]} is zero for some nfev_stiff_detect: ZeroDivisionError in a step', site(e[3]))
    for k, h, o, d in X.dense:
        if d.kind != 'ok' or not isinstance(d.val, Ref):
            continue
        n += 1
        mus = set(X.R.heads[k]['mus'])
        own = X.nodes(k)
        for a, v in d.st.o(d.val.a).d.items():
            for key, x in X.scalars(d.st, v):
                if tainted(x, src, taint, mus, own):
                    r.bad(f'{cls} dense {a}', f'attribute {a} of the dense output depends on nfev_stiff_detect', METHODS[cls])
    if not r.viol:
        r.good(f'{cls}: {len(inf)} influential attributes, {n} outcomes and dense outputs independent of the option '
               f'(dependent: {", ".join(sorted(names))})')


def tainted(x, src, taint, mus, own):
    for i in flow(x, mus):
        if i == src:
            return True
        if i in mus:
            for n, key in own.get(i, ()):
                if isinstance(key, tuple) and key[:1] == ('buf',):
                    key = ('buf',)
                if (n, key) in taint:
                    return True
    return False


def off(r, cls):
    """nfev_stiff_detect=0: every evaluation in a step is used"""
    X = Explore(cls, dense=False)
    used = set()
    calls = {}
    for k, h, o in X.steps:
        st = o.st
        for n, v in st.o(X.inst.a).d.items():
            for key, x in X.scalars(st, v):
                used |= set(flow(x))
        for c in st.facts:
            used |= set(flow(c))
        for e in st.events():
            if e[0] == 'ucall':
                calls[(repo_fn(e[5]), e[3], e[4])] = e
    arg = set()
    for i in used:
        a = ATOMS[i]
        if a.kind == 'app' and a.args[0] == 'F':
            arg.add((a.args[1], tuple(a.args[2])))
    seen, fns = set(), {}
    for (f, t, ys), e in calls.items():
        fns.setdefault(f, e)
        if (t, tuple(ys or ())) in arg:
            seen.add(f)
    r.count('evaluations', len(calls))
    for f, e in fns.items():
        if f in seen:
            r.good(f'{cls}: evaluations in {f[0]}.{f[1]} are used')
        elif '.' in f[1] and 'stiff' not in f[1]:
            r.good(f'{cls}: evaluations in method {f[0]}.{f[1]}')      # final evaluation of a step (merged with others in f)
        else:
            r.bad(f'{f[0]}:{f[1]} wasted', 'with nfev_stiff_detect=0 a step makes function evaluations whose results are not used '
                  'for the step', f'{f[0]}:{f[1]}')
