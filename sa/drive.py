"""Abstract execution of a solver class: construction, generic stepping state, one generic step, dense output."""
from .poly import *
from .interp import is_pos
from .interp import Interp, St, HO, Ref, Arr, Builtin, Bound, Exc, AnalysisError
from .lib import Lib
from . import arr as _arr

N = sym('n', pos=True, int=True, lo=1)
T0 = sym('t0')
TB = sym('t_bound')
D = sym('D', sign=True, real=True)
LEN = sym('L', pos=True)
RTOL = sym('rtol', pos=True)
ATOL = sym('atol', pos=True, axis=False)
MAXSTEP = sym('max_step', pos=True)
FIRST = sym('first_step', pos=True)

METHODS = {
    'Me4': 'merson', 'Ts5': 'tsitouras', 'BS5': 'bogacki', 'CK5': 'cash', 'CKdisc': 'cash', 'Pr7': 'prince', 'Pr8': 'prince',
    'Pr9': 'prince', 'CFMR7osc': 'calvo', 'SWAG': 'shampine', 'SSV2stab': 'sommeijer', 'Fi4N': 'fine', 'Fi5N': 'fine',
    'Mu5Nmb': 'murua', 'MR6NN': 'mikkawy', 'HS2I': 'hosea', 'HS2Ia': 'hosea', 'TRBDF2': 'hosea', 'TRX2': 'hosea',
    'KC3I': 'kennedy', 'KC4I': 'kennedy', 'KC4Ia': 'kennedy', 'Kv3I': 'kvaerno'}
RK = ('Me4', 'Ts5', 'BS5', 'CK5', 'CKdisc', 'Pr7', 'Pr8', 'Pr9', 'CFMR7osc')
RKN = ('Fi4N', 'Fi5N', 'Mu5Nmb', 'MR6NN')
IMPL = ('TRBDF2', 'TRX2', 'KC3I', 'KC4I', 'KC4Ia', 'Kv3I')


def two(x):
    return scale(x, 2)


class UserFun:
    """the user's right hand side; returns a fresh array on every call, labelled as caller owned"""

    def __init__(self, lib, name='F', segs=None, second=False):
        self.lib, self.name, self.second = lib, name, second
        self.segs = segs

    def value(self):
        return Builtin('user.' + self.name, self.call)

    def call(self, I, st, args, kw):
        L = self.lib
        t, y = args[0], args[1]
        extra = tuple(args[2:])
        s, c = L.asarr(st, y)
        st.event('ucall', self.name, I.site(), t, tuple(c.values()) if s is not None else None,
                 tuple(I.cur))
        if isinstance(t, Arr):
            t = L.truthcell(I, st, t)
        orig = frozenset(['ret:' + self.name])
        ex = tuple(x for a in extra for x in L.deps(st, [a]))
        if s is None:
            v = list(c.values())
            r = of_atom(self.app(t, tuple(L.topoly(x) for x in v), 'u', ex))
            b = st.new('buf', {'*': r}, {'axes': None, 'orig': orig, 'alias': frozenset()})
            return [(Arr(b, None, ()), st)]
        ys = [L.topoly(c[p]) for p in sorted(c)]
        if len(s) == 2 and s[1] != (ONE,):
            r = L.unkval(I, st, self.name + '2d', [x for x in ys])
            return [(r, st)]
        data = {}
        for p in c:
            if self.second and p[0] < len(s[0]) // 2:
                q = (p[0] + len(s[0]) // 2,) + p[1:]
                data[p] = L.topoly(c[q])
            else:
                data[p] = of_atom(self.app(t, tuple(ys), p[0], ex))
        return [(L.mkarr(st, s, data, orig=orig), st)]

    def app(self, t, ys, k, ex):
        a = atom('app', self.name, t, ys, num(k) if isinstance(k, int) else k, ex)
        if a.info is None:
            a.info = Info({'axis': True, 'nan': True})
        return a


class Out:
    def __init__(self, kind, st, val=None, exc=None, site=None):
        self.kind, self.st, self.val, self.exc, self.site = kind, st, val, exc, site


class Run:
    """analysis of one class in one configuration"""

    def __init__(self, cls, repo='/repo', opts=None, tol='scalar', first_step=None, max_step='sym', vectorized=False,
                 complex_=False, back=None, extra=None, budget=4000000, module=None, t_known=False):
        self.cls = cls
        self.lib = L = Lib()
        L.isdtype_complex = complex_
        _arr._real[0] = not complex_
        self.complex_ = complex_
        self.I = I = Interp(repo, L, budget)
        self.st = St()
        self.second = cls in RKN
        self.size = N
        L.segorder = (N,)
        if self.second:
            self.size = two(N)
            L.split2 = {two(N): (N, N)}
        self.opts = opts or {}
        self.tol, self.first_step, self.max_step, self.vectorized = tol, first_step, max_step, vectorized
        self.d = D if back is None else num(-1 if back else 1)
        mod = module or 'extensisq.' + METHODS[cls]
        I.load('extensisq', self.st)
        a = I.load(mod, self.st)
        if a is None:
            raise AnalysisError(f'module {mod} not found')
        ref = self.st.o(a).d.get(cls)
        if not isinstance(ref, Ref) or self.st.o(ref.a).kind != 'class':
            raise AnalysisError(f'class {cls} not found in {mod}')
        self.cref = ref
        self.module_events = len(self.st.events())

    # ------------------------------------------------------------------
    def y0(self, st, name='y0', orig='user:y0'):
        L = self.lib
        segs = L.axis_of(self.size)
        data = {}
        for i in range(len(segs)):
            s = sym(name if len(segs) == 1 else f'{name}_{"xv"[i]}', axis=True)
            data[(i,)] = s
        return L.mkarr(st, (segs,), data, orig=frozenset([orig]))

    def args(self, st):
        L = self.lib
        self.ufun = UserFun(L, 'F', second=self.second)
        fun = self.ufun.value()
        t0 = add(TB, neg(mul(self.d, LEN)))
        self.t0 = t0
        y0 = self.y0(st)
        self.y0ref = y0
        kw = {}
        if self.max_step == 'sym':
            kw['max_step'] = MAXSTEP
        if self.tol == 'scalar':
            kw['rtol'], kw['atol'] = RTOL, ATOL
        elif self.tol == 'vector':
            segs = L.axis_of(self.size)
            kw['rtol'] = RTOL
            kw['atol'] = L.mkarr(st, (segs,), {(i,): sym('atol_v%d' % i, pos=True, axis=True) for i in range(len(segs))},
                                 orig=frozenset(['user:atol']))
        elif self.tol == 'vector2':
            segs = L.axis_of(self.size)
            for nm in ('rtol', 'atol'):
                kw[nm] = L.mkarr(st, (segs,), {(i,): sym(f'{nm}_v{i}', pos=True, axis=True) for i in range(len(segs))},
                                 orig=frozenset(['user:' + nm]))
        if self.first_step == 'sym':
            kw['first_step'] = FIRST
        if self.vectorized:
            kw['vectorized'] = True
        for k, v in self.opts.items():
            kw[k] = v(self, st) if callable(v) and not isinstance(v, (Builtin,)) else v
        return [fun, t0, y0, TB], kw

    def construct(self, args=None, kw=None):
        """-> list of Out ('ok' with instance Ref / 'exc')"""
        st = self.st.fork()
        if args is None:
            args, kw = self.args(st)
        return self.construct_in(st, args, kw)

    def construct_in(self, st, args, kw):
        I = self.I
        I.cur = [('driver', 'construct')]
        I.sinks = [[]]
        res = [Out('ok', x, v) for v, x in I.instantiate(self.cref, args, kw, st)]
        res += [Out('exc', x, exc=e, site=s) for e, x, s in I.sinks[0]]
        return res

    def step(self, inst, st):
        I = self.I
        I.sinks = [[]]
        I.fixdepth = 0
        I.cur = [('driver', 'step')]
        st = st.fork()
        st.tag = ()
        st.stack = ()
        res = []
        for m, x in I.getattr(inst, 'step', st):
            for v, y in I.call(m, [], {}, x):
                ok, msg = v if isinstance(v, tuple) else (v, None)
                res.append(Out('ok' if ok is True else 'fail' if ok is False else 'any', y, msg))
        res += [Out('exc', x, exc=e, site=s) for e, x, s in I.sinks[0]]
        return res

    def call_method(self, inst, name, args, st):
        I = self.I
        I.sinks = [[]]
        I.cur = [('driver', name)]
        st = st.fork()
        st.stack = ()
        res = []
        for m, x in I.getattr(inst, name, st):
            for v, y in I.call(m, args, {}, x):
                res.append(Out('ok', y, v))
        res += [Out('exc', x, exc=e, site=s) for e, x, s in I.sinks[0]]
        return res

    def attr(self, inst, st, name):
        return st.o(inst.a).d.get(name)

    def running(self, inst, st):
        """the state after a successful step, if integration goes on (t has not reached t_bound)"""
        t = self.attr(inst, st, 't')
        st = st.fork()
        if not st.learn(c_cmp('<', mul(self.d, add(t, neg(TB))), ZERO), True):
            return None
        return st

    def simplify(self, inst, st):
        """replace complicated scalar attribute values by fresh symbols with the same range; drop path facts"""
        st = st.fork()
        st.stack = ()
        ctx = st.getctx()
        o = st.w(inst.a)
        memo = {}
        for k, v in list(o.d.items()):
            if isinstance(v, Poly) and sum(1 for _ in walk(v)) > 12 and k not in ('rtol', 'atol', 't', 't_bound'):
                if v not in memo:
                    lo, hi, nan = ctx.iv(v)
                    dv = mul(self.d, v)
                    if lo < 0 and self.d is D and ctx.iv(dv)[0] >= 0:
                        # the sign of the value is the direction of integration
                        dl, dh, nan = ctx.iv(dv)
                        m = mu(k, [dv], nan=nan, axis=False)
                        the_atom(m).info['pos' if dl > 0 else 'nonneg'] = True
                        memo[v] = mul(D, m)
                        o.d[k] = memo[v]
                        continue
                    m = mu(k, [v], nan=nan)
                    i = the_atom(m).info
                    if lo > 0 or is_pos(v):
                        i['pos'] = True
                    elif lo >= 0 or is_nonneg(v):
                        i['nonneg'] = True
                    if all(x.info and x.info.get('int') for x in [the_atom(v)] if x is not None) and the_atom(v) is not None:
                        i['int'] = True
                    i['axis'] = False
                    memo[v] = m
                o.d[k] = memo[v]
        st.facts = {}
        st.ctx = None
        return st

    def generic(self, inits):
        """loop of steps; returns list of generic head states [(inst, st)]"""
        I = self.I
        heads = []
        self.rounds = 0
        I.reads = set()
        env = None
        inst = None
        for o in inits:
            if o.kind != 'ok':
                continue
            inst = o.val
            x = self.simplify(inst, o.st)
            x.ev = None
            I.add_head(heads, x, env)
        I.cur = [('driver', 'loop')]
        while True:
            todo = [h for h in heads if not h['done']]
            if not todo:
                break
            self.rounds += 1
            if self.rounds > 80:
                I.note('stepping loop did not stabilise')
                break
            h = todo[0]
            h['done'] = True
            x = self.place(inst, h)
            x.ev = None
            self.collect(inst, x)
            h['st'] = x
            I.loop_log = []
            outs = self.step(inst, x)
            h['outs'] = outs
            h['loops'] = I.loop_log
            back = []
            for o in outs:
                if o.kind in ('ok', 'any'):
                    y = self.running(inst, o.st)
                    if y is not None:
                        y = self.running(inst, self.simplify(inst, y))
                        y.stack = ()
                        back.append(y)
            for y in I.merge_all(back):
                y.ev = None
                I.add_head(heads, y, env)
        self.heads = heads
        self.inst = inst
        self.step_reads = {n for a, n in I.reads if inst is not None and a == inst.a}
        return [(inst, h['st']) for h in heads]

    def collect(self, inst, st):
        """drop unreachable heap objects"""
        seen = set()
        todo = [0, inst.a]
        I = self.I
        while todo:
            a = todo.pop()
            if a in seen or a not in st.heap:
                continue
            seen.add(a)
            o = st.heap[a]
            self.refs(o.d, todo, 0)
            self.refs(o.meta, todo, 0)
        for a in list(st.heap):
            if a not in seen:
                del st.heap[a]

    def refs(self, x, todo, depth):
        if isinstance(x, Ref):
            todo.append(x.a)
        elif isinstance(x, Arr):
            todo.append(x.b)
        elif isinstance(x, int) and not isinstance(x, bool):
            todo.append(x)            # heap addresses stored in meta data
        elif isinstance(x, dict):
            for k, v in x.items():
                self.refs(k, todo, depth + 1)
                self.refs(v, todo, depth + 1)
        elif isinstance(x, (tuple, list, set, frozenset)):
            for v in x:
                self.refs(v, todo, depth + 1)
        elif isinstance(x, Bound):
            self.refs(x.f, todo, depth + 1)
            self.refs(x.s, todo, depth + 1)
        elif hasattr(x, '__dict__') and not isinstance(x, (Poly, Cond, Atom)) and depth < 12:
            self.refs(x.__dict__, todo, depth + 1)
        elif isinstance(x, Builtin):
            fn = getattr(x, 'fn', None)
            for c in getattr(fn, '__closure__', None) or ():
                try:
                    self.refs(c.cell_contents, todo, depth + 1) if not callable(c.cell_contents) else None
                except ValueError:
                    pass

    def place(self, inst, head):
        """express t of a generic state by the remaining distance R > 0"""
        st = head['st']
        t = self.attr(inst, st, 't')
        a = the_atom(t) if isinstance(t, Poly) else None
        if a is None or a.kind != 'mu':
            return st.fork()
        R = mu('R', [ONE], pos=True)
        r = the_atom(R)
        head['mus'] = (set(head['mus']) - {a.id}) | {r.id}
        MU_SOURCES[r.id] = set()
        return self.substitute(st, {a.id: add(TB, neg(mul(self.d, R)))})

    def substitute(self, st, sigma):
        st = st.fork()
        mask = 0
        for i in sigma:
            mask |= 1 << i
        memo = {}

        def f(a):
            return sigma.get(a.id)

        def v(x):
            if isinstance(x, (Poly, Cond)):
                return subst(x, f, memo, mask)
            if isinstance(x, tuple):
                return tuple(v(y) for y in x)
            return x
        for a in list(st.heap):
            h = st.heap[a]
            if h.kind == 'func':
                continue
            if isinstance(h.d, dict):
                ch = {k: v(x) for k, x in h.d.items() if isinstance(x, (Poly, Cond, tuple))}
                ch = {k: x for k, x in ch.items() if x is not h.d[k]}
                if ch:
                    st.w(a).d.update(ch)
            else:
                for k, x in enumerate(h.d):
                    y = v(x)
                    if y is not x:
                        st.w(a).d[k] = y
        st.facts = {v(c): b for c, b in st.facts.items() if isinstance(v(c), Cond)}
        st.ctx = None
        return st
