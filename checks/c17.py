"""C17: sensitivity functions integrate the correct variational and adjoint equations."""
from .common import *
from sa import arr as _arr
from sa.interp import Interp, St, Ref, Arr, Builtin, AnalysisError
from sa.lib import Lib, Opaque

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of the sensitivity functions with generic model functions; polynomial identity of the variational / adjoint certificates'
RULE = ('the sensitivity functions are executed abstractly for a generic model (fun, jac, dfdp, g, dgdp, dgdy are uninterpreted functions '
        'of t, y and p), with solve_ivp replaced by a summary that keeps the right-hand side, initial values, interval, tolerances and Jacobians it is '
        'given, for every kind of method choice. The right-hand sides are expressions over an arbitrary state. Forward: the value '
        'reported as dy_i/dp_k is a component of the final state whose equation is J s_k + dfdp_k and whose initial value is dy0/dp. '
        'Adjoint: the reported gradient is, with dy0/dp replaced by s(t), a functional of adjoint state and sensitivities that is equal '
        'to the gradient of the end objective at tf and whose time derivative cancels the integrand identically; '
        'this holds as an identity of polynomials in the model functions. Given Jacobians and sparsity patterns are compared with the derivative of the '
        'right-hand side. All results are on paths where the solver run succeeded, failure only leads to RuntimeError.')
ASSUME = ['solve_ivp solves the system it is given', 'model sizes (1,1), (2,3), (3,2) stand for all sizes', 'numpy calls behave as modelled in sa/libnp.py']

MICRO = num(Fr(1, 10**6))
SIZES = [(2, 3), (3, 2), (1, 1)]
FUNS = ('sens_forward', 'sens_adjoint_end', 'sens_adjoint_int')
CHOICES = ['class', 'RK45', 'LSODA', 'BDF', 'Radau', 'implicit']


def jobs(tier):
    out = []
    for ny, np_ in SIZES:
        for f in FUNS:
            for m in CHOICES:
                if tier == 'quick' and (ny, np_) != (2, 3) and m not in ('class', 'BDF'):
                    continue
                out.append((f'{f}/{m}/{ny}x{np_}', 'job', dict(f=f, method=m, ny=ny, npar=np_), 120))
    for f in FUNS:
        out.append((f'{f}/tolerances', 'job', dict(f=f, method='class', ny=2, npar=3, tol='seq'), 120))
        out.append((f'{f}/lists', 'job', dict(f=f, method='class', ny=2, npar=3, lists=True), 120))
        out.append((f'{f}/defaults', 'job', dict(f=f, method='class', ny=2, npar=3, defaults=True), 120))
    out.append(('sens_forward/output', 'job', dict(f='sens_forward', method='class', ny=2, npar=3, output=True), 120))
    for m in ('class', 'LSODA', 'BDF', 'Radau'):
        out.append((f'sens_forward/approx/{m}', 'job', dict(f='sens_forward', method=m, ny=2, npar=3, approx=True), 120))
    for f in FUNS[1:]:
        for m in ('class', 'BDF'):
            out.append((f'{f}/given/{m}', 'job', dict(f=f, method=m, ny=2, npar=3, given=True), 120))
    return out


def s_(name, **k):
    return sym(name, axis=False, real=True, **k)


def app(name, t, ys, idx, par):
    a = atom('app', name, t, tuple(ys), num(idx[0]) if idx else 'u', (tuple(num(i) for i in idx[1:]), tuple(par)))
    if a.info is None:
        a.info = Info({'axis': False, 'real': True})
    return of_atom(a)


class Model:
    def __init__(self, lib, ny, npar):
        self.L, self.ny, self.np = lib, ny, npar
        self.p = [s_(f'p{k}') for k in range(npar)]
        self.t0, self.tf, self.tau = s_('t0'), s_('tf'), s_('tau')
        self.ivp = []

    def dims(self, *n):
        return tuple((ONE,) * k for k in n)

    def array(self, st, dims, f, **kw):
        L = self.L
        data = {pos: f(*pos) for pos in _arr.positions(self.dims(*dims))}
        return L.mkarr(st, self.dims(*dims), data, **kw)

    def seq(self, st, dims, f, lists):
        if not lists:
            return self.array(st, dims, f)
        if len(dims) == 1:
            return Ref(st.new('list', [f(i) for i in range(dims[0])]))
        return Ref(st.new('list', [Ref(st.new('list', [f(i, j) for j in range(dims[1])])) for i in range(dims[0])]))

    def user(self, name, dims):
        def call(I, st, args, kw):
            L = self.L
            t, y = args[0], args[1]
            if isinstance(t, Arr):
                t = L.truthcell(I, st, t)
            par = args[2:]
            s, c = L.asarr(st, y)
            if s is None or len(s) != 1 or len(s[0]) != self.ny:
                raise AnalysisError(f'{name} called with a state of unknown or wrong size')
            ys = [L.topoly(c[(i,)]) for i in range(self.ny)]
            pp = [L.topoly(x) for x in par]
            return [(self.array(st, dims, lambda *idx: app(name, L.topoly(t), ys, idx, pp)), st)]
        return Builtin('user.' + name, call)

    def val(self, name, t, ys, *idx):
        return app(name, t, ys, idx, self.p)


def unknown(p):
    """the value has parts the analysis does not know"""
    for a in walk(p):
        if a.kind == 'mu' and (a.info or {}).get('unk'):
            return True
        if a.kind == 'mu':
            return True
    return False


def cells1(M, st, a):
    """list of the values of a 1d array"""
    s, c = M.L.asarr(st, a)
    if s is None or len(s) != 1:
        return None
    return [M.L.topoly(c[(i,)]) for i in range(len(s[0]))]


def cells2(M, st, a):
    s, c = M.L.asarr(st, a)
    if s is None or len(s) != 2:
        return None
    return [[M.L.topoly(c[(i, j)]) for j in range(len(s[1]))] for i in range(len(s[0]))]


def make_ivp(M, forks):
    """summary of scipy.integrate.solve_ivp"""
    names = ['fun', 't_span', 'y0', 'method', 't_eval', 'dense_output', 'events', 'vectorized', 'args']

    def call(I, st, args, kw):
        L = M.L
        k = dict(zip(names, args))
        k.update(kw)
        no = len([e for e in st.events() if e[0] == 'ivp'])
        span = k['t_span']
        if isinstance(span, Ref):
            span = tuple(st.o(span.a).d)
        y0 = cells1(M, st, k['y0']) if not isinstance(k['y0'], Poly) else [k['y0']]
        rec = dict(no=no, t_span=span, y0=y0, method=k.get('method'), kw=k, rtol=k.get('rtol'), site=I.site())
        if y0 is None:
            raise AnalysisError('initial state of unknown size')
        n = len(y0)
        rec['z'] = z = [s_(f'z{no}_{i}') for i in range(n)]
        at = k.get('atol')
        rec['atol'] = None if at is None else (at if isinstance(at, Poly) else cells1(M, st, at))
        js = k.get('jac_sparsity')
        rec['sparsity'] = None if js is None else cells2(M, st, js)
        te = k.get('t_eval')
        rec['t_eval'] = te
        extra = [] if k.get('args') is None else list(k['args'])
        out = []
        tau = M.tau
        for r, x in I.call(k['fun'], [tau, M.array(st, (n,), lambda i: z[i])] + extra, {}, st):
            rec1 = dict(rec, rhs=cells1(M, x, r))
            todo = [(rec1, x)]
            j = k.get('jac')
            if j is not None:
                todo = []
                if isinstance(j, (Arr,)):
                    todo.append((dict(rec1, jac=cells2(M, x, j)), x))
                else:
                    for r2, x2 in I.call(j, [tau, M.array(x, (n,), lambda i: z[i])] + extra, {}, x):
                        todo.append((dict(rec1, jac=cells2(M, x2, r2), hasjac=True), x2))
            for rc, w in todo:
                w = w.fork()
                M.ivp.append(rc)
                w.event('ivp', len(M.ivp) - 1)
                out.append((result(M, w, rc, k.get('dense_output') is True), w))
        return out
    return Builtin('solve_ivp', call)


def result(M, st, rc, dense):
    """OdeResult of a run"""
    L = M.L
    n = len(rc['y0'])
    no = rc['no']
    zf = [s_(f'zend{no}_{i}') for i in range(n)]
    rc['zf'] = zf
    stat = s_(f'status{no}', int=True)
    ok = rc['ok'] = c_cmp('>=', stat, ZERO)
    y = M.array(st, (n, 3), lambda i, j: zf[i] if j == 2 else s_(f'zmid{no}_{i}_{j}'))
    t = M.array(st, (3,), lambda j: rc['t_span'][1] if j == 2 else s_(f'tmid{no}_{j}'))
    sol = None
    if dense:
        sol = dense_sol(M, n, no)
    return Opaque('OdeResult', {'y': y, 't': t, 'success': ok, 'sol': sol, 'run': no, 'status': stat, 'message': 'message',
                                't_events': None, 'y_events': None, 'nfev': s_('nfev'), 'njev': s_('njev'), 'nlu': s_('nlu')})


def yval(no, t, i):
    a = atom('app', f'sol{no}', t, (), num(i), ())
    if a.info is None:
        a.info = Info({'axis': False, 'real': True})
    return of_atom(a)


def dense_sol(M, n, no):
    def call(I, st, args, kw):
        t = args[0]
        if isinstance(t, Arr):
            t = M.L.truthcell(I, st, t)
        return [(M.array(st, (n,), lambda i: yval(no, M.L.topoly(t), i)), st)]
    return Builtin(f'sol{no}', call)


def diff(p, z):
    """derivative to a symbol of a polynomial in which the symbol is not inside other atoms"""
    za = the_atom(z)
    out = ZERO
    for m, c in p.terms.items():
        for k, (i, e) in enumerate(m):
            if i == za.id:
                if int(e) != e or e < 1:
                    raise AnalysisError('derivative')
                rest = m[:k] + (((i, e - 1),) if e > 1 else ()) + m[k + 1:]
                out = add(out, mk({rest: c * int(e)}))
            elif za in set(walk(of_atom(ATOMS[i]))):
                return None
    return out


def substitute(p, m):
    return subst(p, lambda a: m.get(a))


def make_namedtuple(M):
    def nt(I, st, args, kw):
        names = args[1] if len(args) > 1 else kw.get('field_names')
        if isinstance(names, str):
            names = tuple(names.replace(',', ' ').split())
        elif isinstance(names, Ref):
            names = tuple(st.o(names.a).d)

        def make(I, st, args, kw):
            v = list(args) + [None] * (len(names) - len(args))
            for k, x in kw.items():
                v[names.index(k)] = x
            return [(Opaque('namedtuple', dict(zip(names, v), fields=tuple(v), names=names)), st)]
        return [(Builtin('namedtuple', make), st)]
    return Builtin('namedtuple', nt)


DOCUMENTED = {'sens_forward': ('sensf', 'yf', 'sol'), 'sens_adjoint_end': ('sens', 'gf', 'sol_y', 'sol_bw'),
              'sens_adjoint_int': ('sens', 'G', 'sol_y', 'sol_bw')}


def job(res, f, method, ny, npar, tol='scalar', lists=False, approx=False, given=False, output=False, defaults=False):
    import os
    repo = os.environ.get('VERIF_REPO', '/repo')
    lib = Lib()
    lib.isdtype_complex = False
    _arr._real[0] = True
    M = Model(lib, ny, npar)
    I = Interp(repo, lib, 4000000)
    st = St()
    ivp = make_ivp(M, None)
    for m in ('scipy.integrate', 'scipy.integrate._ivp', 'scipy.integrate._ivp.ivp'):
        lib.ext[(m, 'solve_ivp')] = ivp
    lib.ext[('collections', 'namedtuple')] = make_namedtuple(M)
    I.load('extensisq', st)
    a = I.load('extensisq.sensitivity', st)
    if a is None:
        return res.open('module extensisq.sensitivity not found')
    mod = st.o(a).d
    fn = mod.get(f)
    if fn is None:
        return res.open(f'{f} not found')
    meth = dict(RK45='RK45', LSODA='LSODA', BDF='BDF', Radau='Radau').get(method)
    if meth is None:
        b = I.load('extensisq.bogacki' if method == 'class' else 'extensisq.kennedy', st)
        meth = st.o(b).d['BS5' if method == 'class' else 'KC4I']
    rtol, atol = s_('rtol', pos=True), s_('atol', pos=True)
    aa, aq = s_('atol_adj', pos=True), s_('atol_quad', pos=True)
    if tol == 'seq':
        av = [s_(f'atol{i}', pos=True) for i in range(ny)]
        aav = [s_(f'atol_adj{i}', pos=True) for i in range(ny)]
        aqv = [s_(f'atol_quad{i}', pos=True) for i in range(npar)]
    else:
        av, aav, aqv = [atol] * ny, [aa] * ny, [aq] * npar
    mkseq = (lambda v: Ref(st.new('list', list(v)))) if tol == 'seq' else (lambda v: v[0])
    y0 = M.seq(st, (ny,), lambda i: s_(f'y0_{i}'), lists)
    S0 = [[s_(f'S0_{i}_{k}') for k in range(npar)] for i in range(ny)]
    dy0 = M.seq(st, (ny, npar), lambda i, k: S0[i][k], lists)
    p = M.seq(st, (npar,), lambda k: M.p[k], lists)
    args = [M.user('f', (ny,)), (M.t0, M.tf), y0, M.user('J', (ny, ny)), M.user('fp', (ny, npar)), dy0, p]
    kw = dict(rtol=rtol, method=meth, atol=mkseq(av))
    if f != 'sens_forward':
        args += [M.user('g', (1,)), M.user('gp', (npar,)), M.user('gy', (ny,))]
        kw.update(atol_adj=mkseq(aav), atol_quad=mkseq(aqv))
        if given:
            kw['sol_y'] = Opaque('OdeResult', {'y': M.array(st, (ny, 3), lambda i, j: s_(f'zz_{i}_{j}')), 'sol': dense_sol(M, ny, 'G'),
                                               'success': True, 't': M.array(st, (3,), lambda j: s_(f'tt{j}'))})
    if defaults:
        for k in ('rtol', 'atol', 'method', 'atol_adj', 'atol_quad'):
            kw.pop(k, None)
        rtol, av = num(Fr(1, 1000)), [MICRO] * ny
        aav, aqv = [MICRO] * ny, [MICRO] * npar
    elif output:
        kw['t_eval'] = M.array(st, (3,), lambda j: M.tf if j == 2 else s_(f'te{j}'))
        kw['dense_output'] = True
    if approx:
        kw['use_approx_jac'] = True
    I.cur = [('driver', f)]
    I.sinks = [[]]
    outs = I.call(fn, args, kw, st)
    excs = I.sinks[0]
    tag = f
    if not outs:
        msgs = {str(e.name) for e, x, s in excs}
        if msgs and any('unmodelled' not in m for m in msgs):
            conds = [x for e, x, s in excs]
            res.bad(f'{tag}: valid arguments rejected', f'{f} raises {sorted(msgs)} for a valid model ({method})', excs[0][2] and str(excs[0][2]))
        else:
            res.open('no result')
        return
    # failures
    for e, x, s in excs:
        recs = [M.ivp[v[1]] for v in x.events() if v[0] == 'ivp']
        if recs and e.name != 'RuntimeError':
            failed = [r for r in recs if x.truth(r['ok']) is False]
            if failed:
                res.bad(f'{tag}: {e.name} for a failed run', f'a failed solver run leads to {e.name} instead of RuntimeError', str(s))
    for v, x in outs:
        one_path(res, M, f, tag, v, x, dict(rtol=rtol, av=av, aav=aav, aqv=aqv, S0=S0, meth=meth, approx=approx, given=given, output=output))
    res.count('paths', len(outs))


def the_atom_arg(c):
    """the status in the condition status >= 0"""
    return [of_atom(a) for a in walk(c) if a.kind == 'sym'][0]


def fields(M, st, v):
    if isinstance(v, tuple):
        return v
    if isinstance(v, Opaque) and 'fields' in (v.attrs or {}):
        return v.attrs['fields']
    if isinstance(v, Ref) and st.o(v.a).kind in ('list',):
        return tuple(st.o(v.a).d)
    return None


def same(a, b):
    return add(a, neg(b)) is ZERO or add(a, neg(b)) == ZERO


def compare(res, key, what, got, want, site):
    if got is None:
        return res.open(f'{what}: not known')
    if same(got, want):
        return res.good(what)
    if unknown(got):
        return res.open(f'{what}: {show(got)}')
    res.bad(key, f'{what}: it is {show(got)[:260]} and should be {show(want)[:260]}', str(site))


def one_path(res, M, f, tag, v, st, a):
    ny, np_ = M.ny, M.np
    recs = [M.ivp[e[1]] for e in st.events() if e[0] == 'ivp']
    out = fields(M, st, v)
    need = 3 if f == 'sens_forward' else 4
    if out is None or len(out) != need:
        return res.open(f'result of {f} not understood ({type(v).__name__})')
    if isinstance(v, Opaque) and v.attrs.get('names'):
        if tuple(v.attrs['names']) != DOCUMENTED[f]:
            res.bad(f'{tag}: field names', f'the result has fields {v.attrs["names"]} instead of {DOCUMENTED[f]}')
        else:
            res.good('names of the result fields')
    for r in recs:
        t = st.truth(r['ok'])
        if t is None and st.getctx().iv(the_atom_arg(r['ok']))[0] >= 0:
            t = True
        if t is True:
            res.good(f'run {r["no"]}: result only if the run succeeded')
        else:
            res.bad(f'{tag}: failed run ignored', f'{f} returns a result when the solver run at {r["site"]} failed', str(r['site']))
        if isinstance(r['rtol'], Poly):
            compare(res, f'{tag}: rtol', f'run {r["no"]}: rtol', r['rtol'], a['rtol'], r['site'])
        else:
            res.bad(f'{tag}: rtol', f'rtol is not passed to the solver run at {r["site"]}', str(r['site']))
        if r['method'] != a['meth']:
            res.bad(f'{tag}: method', f'the requested method is not passed to the solver run at {r["site"]}', str(r['site']))
        else:
            res.good(f'run {r["no"]}: method')
        jacobian(res, M, tag, r, f, a)
    if f == 'sens_forward':
        forward(res, M, tag, out, st, recs, a)
    else:
        adjoint(res, M, f, tag, out, st, recs, a)


def jacobian(res, M, tag, r, f, a):
    rhs, z, n = r.get('rhs'), r['z'], len(r['z'])
    if rhs is None:
        return res.open(f'run {r["no"]}: right-hand side not known')
    if len(rhs) != n:
        return res.bad(f'{tag}: size', f'run {r["no"]}: the right-hand side has {len(rhs)} components for a state of {n}', str(r['site']))
    sp = r.get('sparsity')
    if sp is not None:
        for i in range(n):
            dep = set(walk(rhs[i]))
            for j in range(n):
                if the_atom(z[j]) in dep:
                    if sp[i][j] == ZERO:
                        res.bad(f'{tag}: jac_sparsity', f'the sparsity pattern has no entry ({i}, {j}) but component {i} of the combined right-hand side depends on state {j}', str(r['site']))
                    else:
                        res.good(f'sparsity ({i}, {j})')
    J = r.get('jac')
    if not r.get('hasjac') and J is None:
        return
    if J is None:
        return res.open(f'run {r["no"]}: Jacobian not known')
    if len(J) != n or any(len(x) != n for x in J):
        return res.bad(f'{tag}: jac size', f'run {r["no"]}: the Jacobian has not the size of the state', str(r['site']))
    ys = z[:M.ny]
    for i in range(n):
        if unknown(rhs[i]):
            res.open(f'run {r["no"]}: component {i}')
            continue
        for j in range(n):
            d = diff(rhs[i], z[j])
            if d is None:
                # the state is an argument of model functions: derivative known for f only
                q = the_atom(rhs[i])
                if q is not None and q.kind == 'app' and q.args[0] == 'f' and all(the_atom(x) in [the_atom(w) for w in z] for x in q.args[2]):
                    k = q.args[3].const
                    pos = [b for b, x in enumerate(q.args[2]) if x == z[j]]
                    if len(pos) == 1:
                        d = app('J', q.args[1], q.args[2], (int(k), pos[0]), q.args[4][1])
                if d is None:
                    # second derivatives of the model are not available
                    if J[i][j] == ZERO:
                        res.good(f'run {r["no"]}: jac ({i}, {j}) left out')
                    else:
                        res.open(f'run {r["no"]}: jac ({i}, {j})')
                    continue
            compare(res, f'{tag}: Jacobian', f'run {r["no"]}: jac ({i}, {j})', J[i][j], d, r['site'])


def last(M, v, r):
    """component of the final state of a run that a value is"""
    a = the_atom(v) if isinstance(v, Poly) else None
    for i, x in enumerate(r['zf']):
        if a is not None and x == v:
            return i
    return None


def forward(res, M, tag, out, st, recs, a):
    ny, np_ = M.ny, M.np
    if len(recs) != 1:
        return res.open(f'{len(recs)} solver runs')
    r = recs[0]
    returned(res, M, tag, out[2], r, 'sol')
    if a['output']:
        if r['t_eval'] is None:
            res.bad(f'{tag}: t_eval', 't_eval is not passed to the solver', str(r['site']))
        else:
            te = cells1(M, st, r['t_eval'])
            if te:
                compare(res, f'{tag}: t_eval', 'last point of t_eval', te[-1], M.tf, r['site'])
        if isinstance(out[2], Opaque) and out[2].attrs.get('sol') is None:
            res.bad(f'{tag}: dense_output', 'dense_output=True is not passed to the solver', str(r['site']))
    sens, yf = cells2(M, st, out[0]), cells1(M, st, out[1])
    if sens is None or yf is None:
        return res.open('result arrays not known')
    if (len(sens), len(sens[0])) != (ny, np_) or len(yf) != ny:
        return res.bad(f'{tag}: shape', 'sensf has not the documented shape (ny, np) or yf not (ny,)', str(r['site']))
    span(res, tag, r, (M.t0, M.tf))
    z = r['z']
    iy = [last(M, v, r) for v in yf]
    ik = [[last(M, v, r) for v in row] for row in sens]
    if None in iy or any(None in x for x in ik):
        bad = [v for v in yf + [w for x in sens for w in x] if last(M, v, r) is None]
        if any(unknown(v) for v in bad):
            return res.open('result values not known')
        return res.bad(f'{tag}: endpoint', f'a reported result is {show(bad[0])[:200]}, not a component of the final state', str(r['site']))
    if r['rhs'] is None or len(r['rhs']) != len(z):
        return
    ys = [z[i] for i in iy]
    for i in range(ny):
        compare(res, f'{tag}: state equation', f"y{i}' = f{i}", r['rhs'][iy[i]], M.val('f', M.tau, ys, i), r['site'])
        compare(res, f'{tag}: initial state', f'y{i}(t0)', r['y0'][iy[i]], s_(f'y0_{i}'), r['site'])
        for k in range(np_):
            w = M.val('fp', M.tau, ys, i, k)
            for j in range(ny):
                w = add(w, mul(M.val('J', M.tau, ys, i, j), z[ik[j][k]]))
            compare(res, f'{tag}: variational equation', f"s{i}{k}' = (J s + dfdp){i}{k}", r['rhs'][ik[i][k]], w, r['site'])
            compare(res, f'{tag}: initial sensitivity', f's{i}{k}(t0)', r['y0'][ik[i][k]], a['S0'][i][k], r['site'])
    at = r['atol']
    if isinstance(at, Poly):
        at = [at] * len(z)
    if at is None:
        res.open('atol not known')
    else:
        for i in range(ny):
            compare(res, f'{tag}: atol', f'atol of y{i}', at[iy[i]], a['av'][i], r['site'])
            for k in range(np_):
                for val in (Fr(3), Fr(-1, 2), Fr(1, 10**9), Fr(-10**9), Fr(0)):
                    x = st.fork()
                    if not x.learn(c_cmp('==', M.p[k], num(val)), True):
                        continue
                    got = substitute(at[ik[i][k]], {the_atom(M.p[k]): num(val)})
                    compare(res, f'{tag}: atol', f'atol of s{i}{k} for the parameter value {val}', got, scale(a['av'][i], 1 / abs(val) if val else 1), r['site'])


def span(res, tag, r, want):
    sp = r['t_span']
    if not isinstance(sp, tuple) or len(sp) != 2:
        return res.open('interval not known')
    for k in (0, 1):
        compare(res, f'{tag}: interval', f'run {r["no"]}: end {k} of the interval', sp[k], want[k], r['site'])


def returned(res, M, tag, o, r, name):
    if isinstance(o, Opaque) and 'run' in o.attrs:
        if o.attrs['run'] == r['no']:
            res.good(f'{name} is the result of run {r["no"]}')
        else:
            res.bad(f'{tag}: {name}', f'the result {name} is not the output of the solver run at {r["site"]}', str(r['site']))
    else:
        res.open(f'{name} not known')


def adjoint(res, M, f, tag, out, st, recs, a):
    ny, np_ = M.ny, M.np
    no = 'G' if a['given'] else 0
    if not a['given']:
        if not recs:
            return res.open('no solver run')
        r = recs[0]
        returned(res, M, tag, out[2], r, 'sol_y')
        span(res, tag, r, (M.t0, M.tf))
        for i in range(ny):
            if r['rhs'] is not None and len(r['rhs']) == ny:
                compare(res, f'{tag}: state equation', f"y{i}' = f{i}", r['rhs'][i], M.val('f', M.tau, r['z'], i), r['site'])
            compare(res, f'{tag}: initial state', f'y{i}(t0)', r['y0'][i], s_(f'y0_{i}'), r['site'])
            at = r['atol']
            at = at if isinstance(at, Poly) else at and at[i]
            compare(res, f'{tag}: atol', f'atol of y{i}', at, a['av'][i], r['site'])
        recs = recs[1:]
    if len(recs) != 1:
        return res.open(f'{len(recs)} solver runs for the adjoint problem')
    r = recs[0]
    span(res, tag, r, (M.tf, M.t0))
    returned(res, M, tag, out[3], r, 'sol_bw')
    sens = cells1(M, st, out[0])
    if sens is None or r['rhs'] is None:
        return res.open('results or right-hand side not known')
    if len(sens) != np_:
        return res.bad(f'{tag}: shape', 'sens has not the documented shape (np,)', str(r['site']))
    if len(r['rhs']) != len(r['z']):
        return
    gval = out[1]
    if isinstance(gval, Arr):
        c = M.L.asarr(st, gval)[1]
        gval = next(iter(c.values())) if len(c) == 1 else None
    yt = [yval(no, M.tau, i) for i in range(ny)]
    ye = [yval(no, M.tf, i) for i in range(ny)]
    end = f == 'sens_adjoint_end'
    z, zf = r['z'], r['zf']
    s = [[s_(f's_{i}_{k}') for k in range(np_)] for i in range(ny)]
    rename = {the_atom(zf[i]): z[i] for i in range(len(z))}
    for i in range(ny):
        for k in range(np_):
            rename[the_atom(a['S0'][i][k])] = s[i][k]
    fin = {the_atom(z[i]): r['y0'][i] for i in range(len(z))}
    for k in range(np_):
        phi = substitute(sens[k], rename)
        # end condition
        want = ZERO
        if end:
            want = M.val('gp', M.tf, ye, k)
            for i in range(ny):
                want = add(want, mul(M.val('gy', M.tf, ye, i), s[i][k]))
        compare(res, f'{tag}: end condition', f'functional of parameter {k} at tf', substitute(phi, fin), want, r['site'])
        # conservation
        d = ZERO
        for i in range(len(z)):
            q = diff(phi, z[i])
            if q is None:
                d = None
                break
            d = add(d, mul(q, r['rhs'][i]))
        for i in range(ny) if d is not None else ():
            for l in range(np_):
                q = diff(phi, s[i][l])
                if q is None:
                    d = None
                    break
                if q == ZERO:
                    continue
                w = M.val('fp', M.tau, yt, i, l)
                for j in range(ny):
                    w = add(w, mul(M.val('J', M.tau, yt, i, j), s[j][l]))
                d = add(d, mul(q, w))
            if d is None:
                break
        if d is None:
            res.open(f'functional of parameter {k} not differentiable')
            continue
        want = ZERO
        if not end:
            want = neg(M.val('gp', M.tau, yt, k))
            for i in range(ny):
                want = add(want, neg(mul(M.val('gy', M.tau, yt, i), s[i][k])))
        compare(res, f'{tag}: adjoint equation', f'time derivative of the functional of parameter {k}', d, want, r['site'])
    # objective
    if not isinstance(gval, Poly):
        res.open('value of the objective not known')
    elif end:
        compare(res, f'{tag}: objective', 'value of g at tf', gval, M.val('g', M.tf, ye, 0), r['site'])
    else:
        G = substitute(gval, rename)
        compare(res, f'{tag}: objective', 'G over an empty interval', substitute(G, fin), ZERO, r['site'])
        d = ZERO
        for i in range(len(z)):
            q = diff(G, z[i])
            if q is None:
                return res.open('objective')
            d = add(d, mul(q, r['rhs'][i]))
        compare(res, f'{tag}: objective', 'time derivative of G', d, neg(M.val('g', M.tau, yt, 0)), r['site'])
    # returned runs
    adjoint_tol(res, M, tag, r, sens, a)


def adjoint_tol(res, M, tag, r, sens, a):
    """tolerances: adjoint components (those multiplied with dy0/dp) have atol_adj, integral components atol_quad"""
    at = r['atol']
    if at is None:
        return res.open('atol of the adjoint run not known')
    if isinstance(at, Poly):
        at = [at] * len(r['z'])
    for k in range(M.np):
        for i in range(M.ny):
            q = diff(sens[k], a['S0'][i][k])
            m = [j for j, x in enumerate(r['zf']) if q is not None and the_atom(x) in set(walk(q))]
            if len(m) == 1:
                compare(res, f'{tag}: atol_adj', f'atol of adjoint component {i}', at[m[0]], a['aav'][i], r['site'])
        rest = substitute(sens[k], {the_atom(a['S0'][i][l]): ZERO for i in range(M.ny) for l in range(M.np)})
        m = [j for j, x in enumerate(r['zf']) if the_atom(x) in set(walk(rest))]
        if len(m) == 1:
            compare(res, f'{tag}: atol_quad', f'atol of integral component {k}', at[m[0]], a['aqv'][k], r['site'])
