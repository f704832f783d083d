"""numpy / scipy function models (make_numpy)."""
from .lib import *
from .lib import Lib, Rng, Seq, RObj, FInfo, Opaque, NOTIMPL, DT, DTF, FI, EPS, EPSNEG, TINY, FMAX, one
from .arr import conj, split_real, mm, dot, transpose, positions, ite_, v_real, axisv, EYE, IMAG
from .interp import Arr, Ref, Slice_, Typ, Builtin, Bound, Exc, ExcT, ExtMod
from .libfn import argn
from .iv import Ctx

UFUNC1 = ('exp', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'log', 'log10', 'log2', 'floor', 'ceil', 'expm1', 'log1p',
          'arctan', 'arccos', 'arcsin', 'rint', 'trunc', 'cbrt', 'spacing', 'angle')
DTYPES = ('float64', 'float32', 'float16', 'complex128', 'complex64', 'int64', 'int32', 'int16', 'short', 'longdouble',
          'intp', 'bool_', 'uint8', 'int8', 'double', 'single', 'cdouble', 'floating', 'complexfloating', 'integer',
          'inexact', 'number', 'generic')


def ax_arg(k, a, i=1):
    v = k.get('axis', a[i] if len(a) > i else None)
    if isinstance(v, Poly) and v.const is not None:
        return int(v.const)
    return v


def make_numpy(self):
    L = self
    F = self.funcs

    def reg(*names):
        def d(f):
            for n in names:
                F[n] = Builtin(n, f)
            return f
        return d

    def emap1(I, st, f, a):
        return L.emap(I, st, lambda x: f(L.topoly(x)), a)

    # ---------------------------------------------------------- creation
    def shape_of(I, st, s):
        if isinstance(s, Poly):
            s = (s,)
        if isinstance(s, Ref) and st.o(s.a).kind == 'list':
            s = tuple(st.o(s.a).d)
        if not isinstance(s, tuple) or not all(isinstance(x, Poly) for x in s):
            return None
        r = tuple(L.axis_of(x) for x in s)
        return None if any(x is None for x in r) else r

    def creator(val):
        def f(I, st, a, k):
            s = shape_of(I, st, a[0] if a else k.get('shape'))
            v = val(st)
            dt = k.get('dtype', a[1] if len(a) > 1 else None)
            meta = {'dtype': dt} if isinstance(dt, Typ) else {}
            if s is None:
                b = st.new('buf', {'*': v}, {'axes': None, 'orig': frozenset(), 'alias': frozenset()})
                return one(Arr(b, None, ()), st)
            if s == ():
                return one(L.mkarr(st, (), {(): v}, **meta), st)
            return one(L.fullarr(st, s, v, **meta), st)
        return f
    EMPTY = sym('empty', nan=True)
    F['empty'] = Builtin('empty', creator(lambda st: EMPTY))
    F['zeros'] = Builtin('zeros', creator(lambda st: ZERO))
    F['ones'] = Builtin('ones', creator(lambda st: ONE))

    @reg('full')
    def _(I, st, a, k):
        v = a[1] if len(a) > 1 else k['fill_value']
        return creator(lambda st: L.topoly(v) if not isinstance(v, Arr) else L.truthcell(I, st, v))(I, st, a[:1], {k_: v_ for k_, v_ in k.items() if k_ == 'shape'})

    def like(val):
        def f(I, st, a, k):
            v = val(a, k)
            s, c = L.asarr(st, a[0])
            if s is None:
                b = st.new('buf', {'*': v}, {'axes': None, 'orig': frozenset(), 'alias': frozenset()})
                return one(Arr(b, None, ()), st)
            return one(L.fullarr(st, s, v), st)
        return f
    F['empty_like'] = Builtin('empty_like', like(lambda a, k: EMPTY))
    F['zeros_like'] = Builtin('zeros_like', like(lambda a, k: ZERO))
    F['ones_like'] = Builtin('ones_like', like(lambda a, k: ONE))
    F['full_like'] = Builtin('full_like', like(lambda a, k: L.topoly(a[1] if len(a) > 1 else k['fill_value'])))

    def fn_array(I, st, a, k):
        v = a[0]
        if isinstance(v, Rng) or isinstance(v, Seq):
            its = L.iterate(I, st, v)
            v = tuple(its) if its is not None else I.unk('array', [])
        dt = k.get('dtype', a[1] if len(a) > 1 else None)
        meta = {'dtype': dt} if isinstance(dt, Typ) else {}
        nd = k.get('ndmin')
        s, c = L.asarr(st, v)
        if s is None:
            return one(L.unkarr(I, st, list(c.values())), st)
        if isinstance(v, Arr) and st.o(v.b).meta.get('sparse'):
            meta['sparse'] = True
        if nd is not None and nd.const is not None:
            while len(s) < nd.const:
                s = ((ONE,),) + s
                c = {(0,) + p: x for p, x in c.items()}
        return one(L.mkarr(st, s, dict(c), **meta), st)

    @reg('array', 'copy')
    def _(I, st, a, k):
        if k.get('copy') is False and isinstance(a[0], Arr):
            return one(a[0], st)
        return fn_array(I, st, a, k)

    @reg('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray')
    def _(I, st, a, k):
        if isinstance(a[0], Arr):
            return one(a[0], st)
        return fn_array(I, st, a, k)

    @reg('atleast_1d')
    def _(I, st, a, k):
        v = a[0]
        if isinstance(v, Arr):
            if v.axes is None or len(v.axes) >= 1:
                return one(v, st)
            return one(Arr(v.b, ((-1, (0,)),), v.fixed), st)
        s, c = L.asarr(st, v)
        if s is None:
            return one(L.unkarr(I, st, list(c.values())), st)
        if s == ():
            return one(L.mkarr(st, ((ONE,),), {(0,): c[()]}), st)
        return one(L.mkarr(st, s, c), st)

    @reg('atleast_2d')
    def _(I, st, a, k):
        v = L.toarr(st, a[0])
        if v.axes is None or len(v.axes) >= 2:
            return one(v, st)
        ax = v.axes
        while len(ax) < 2:
            ax = ((-1, (0,)),) + ax
        return one(Arr(v.b, ax, v.fixed), st)

    @reg('arange')
    def _(I, st, a, k):
        a = [x for x in a if isinstance(x, Poly)]
        lo, hi, s = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else tuple(a[:3])
        cs = [x.const for x in (lo, hi, s)]
        if all(c is not None for c in cs) and cs[2] != 0 and (cs[1] - cs[0]) / cs[2] <= 400:
            out, x = [], cs[0]
            while (x < cs[1]) if cs[2] > 0 else (x > cs[1]):
                out.append(num(x))
                x += cs[2]
            return one(L.mkarr(st, ((ONE,) * len(out),), {(i,): v for i, v in enumerate(out)}), st)
        size = div(add(hi, neg(lo)), s)
        v = op('arange', lo, s, size, axis=True, nonneg=is_nonneg(lo) and is_nonneg(s), pos=L.pos(lo), int=True)
        sz = L.axis_of(size)
        if sz is not None and len(sz) == 1:
            return one(L.fullarr(st, (sz,), v), st)
        return one(L.mkarr(st, ((size,),), {(0,): v}), st)

    @reg('linspace')
    def _(I, st, a, k):
        return one(L.unkval(I, st, 'linspace', L.deps(st, a)), st)

    @reg('eye', 'identity', 'eye_array')
    def _(I, st, a, k):
        n = a[0]
        sz = L.axis_of(n) if isinstance(n, Poly) else None
        if sz is None:
            return one(L.unkval(I, st, 'eye', []), st)
        data = {}
        for i in range(len(sz)):
            for j in range(len(sz)):
                data[(i, j)] = ZERO if i != j else (ONE if sz[i] is ONE else EYE)
        return one(L.mkarr(st, (sz, sz), data), st)

    def eye_sp(I, st, a, k):
        r = F['eye'].fn(I, st, a, {})
        for v, s in r:
            s.w(v.b).meta['sparse'] = True
        return r
    F['eye_array'] = Builtin('eye_array', eye_sp)
    F['speye'] = F['eye_array']

    # ---------------------------------------------------------- joining
    def items(I, st, v):
        if isinstance(v, Arr):
            its = L.iterate(I, st, v)
            return its
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            if st.o(v.a).meta.get('unklen'):
                return None
            return list(st.o(v.a).d)
        return L.iterate(I, st, v)

    @reg('concatenate')
    def _(I, st, a, k):
        its = items(I, st, a[0])
        ax = ax_arg(k, a)
        if its is None:
            return one(L.unkval(I, st, 'concatenate', L.deps(st, a)), st)
        return one(L.concat(I, st, its, 0 if ax is None else ax), st)

    @reg('hstack')
    def _(I, st, a, k):
        its = items(I, st, a[0])
        if its is None:
            return one(L.unkval(I, st, 'hstack', L.deps(st, a)), st)
        xs = [L.toarr(st, x) for x in its]
        ax = 0 if all(x.axes is not None and len(x.axes) <= 1 for x in xs) else 1
        return one(L.concat(I, st, its, ax), st)

    @reg('vstack')
    def _(I, st, a, k):
        its = items(I, st, a[0])
        if its is None:
            return one(L.unkval(I, st, 'vstack', L.deps(st, a)), st)
        two = [F['atleast_2d'].fn(I, st, [x], {})[0][0] for x in its]
        return one(L.concat(I, st, two, 0), st)

    @reg('stack')
    def _(I, st, a, k):
        its = items(I, st, a[0])
        if its is None:
            return one(L.unkval(I, st, 'stack', L.deps(st, a)), st)
        ax = ax_arg(k, a)
        return one(L.stack(I, st, its, 0 if ax is None else ax), st)

    @reg('column_stack')
    def _(I, st, a, k):
        its = items(I, st, a[0])
        if its is None:
            return one(L.unkval(I, st, 'stack', L.deps(st, a)), st)
        return one(L.stack(I, st, its, 1), st)

    @reg('broadcast_to')
    def _(I, st, a, k):
        s = shape_of(I, st, a[1] if len(a) > 1 else k['shape'])
        if s is None:
            return one(L.unkval(I, st, 'broadcast', L.deps(st, a)), st)
        r = L.fullarr(st, s, ZERO, alias=frozenset([a[0].b]) if isinstance(a[0], Arr) else frozenset())
        L.store(I, st, r, a[0])
        return one(r, st)

    @reg('append')
    def _(I, st, a, k):
        return one(L.concat(I, st, [a[0], a[1]], 0), st)

    @reg('tile', 'repeat')
    def _(I, st, a, k):
        return one(L.unkval(I, st, 'tile', L.deps(st, a)), st)

    @reg('diff')
    def _(I, st, a, k):
        v = a[0]
        if 'prepend' in k or 'append' in k:
            parts = ([L.toarr1(st, k['prepend'])] if 'prepend' in k else []) + [v] + \
                ([L.toarr1(st, k['append'])] if 'append' in k else [])
            v = L.concat(I, st, parts, 0)
        s, c = L.asarr(st, v)
        if s is not None and len(s) == 1 and all(x is ONE for x in s[0]):
            n = len(s[0])
            return one(L.mkarr(st, ((ONE,) * max(n - 1, 0),), {(i,): add(L.topoly(c[(i + 1,)]), neg(L.topoly(c[(i,)])))
                                                              for i in range(n - 1)}), st)
        if s is not None and len(s) == 1:
            cs = tuple(L.topoly(x) for x in c.values())
            return one(L.mkarr(st, ((add(L.total(s[0]), num(-1)),),), {(0,): op('diff', *cs, axis=True)}), st)
        return one(L.unkval(I, st, 'diff', L.deps(st, [v])), st)

    def cum(name):
        def f(I, st, a, k):
            s, c = L.asarr(st, a[0])
            if s is not None and len(s) == 1 and all(x is ONE for x in s[0]):
                r, out = None, {}
                for i in range(len(s[0])):
                    x = L.topoly(c[(i,)])
                    r = x if r is None else mul(r, x) if name == 'cumprod' else add(r, x)
                    out[(i,)] = r
                return one(L.mkarr(st, s, out), st)
            if s is not None and len(s) == 1:
                vs = [L.topoly(x) for x in c.values()]
                nn = all(is_nonneg(x) for x in vs)
                return one(L.mkarr(st, ((L.total(s[0]),),), {(0,): op(name, *vs, axis=True, nonneg=nn,
                                                                    pos=nn and all(L.pos(x) for x in vs))}), st)
            return one(L.unkval(I, st, name, L.deps(st, a)), st)
        return f
    F['cumprod'] = Builtin('cumprod', cum('cumprod'))
    F['cumsum'] = Builtin('cumsum', cum('cumsum'))

    # ---------------------------------------------------------- elementwise
    F['abs'] = F['absolute'] = F['fabs'] = Builtin('abs', lambda I, st, a, k: one(emap1(I, st, absv, a[0]), st))
    F['sign'] = Builtin('sign', lambda I, st, a, k: one(emap1(I, st, sign, a[0]), st))
    F['conj'] = F['conjugate'] = Builtin('conj', lambda I, st, a, k: one(
        a[0] if isinstance(a[0], Arr) and all(v_real(c) for c in L.asarr(st, a[0])[1].values()) and False
        else emap1(I, st, conj, a[0]), st))
    F['real'] = Builtin('real', lambda I, st, a, k: one(
        L.arrattr(I, st, a[0], 'real') if isinstance(a[0], Arr) else emap1(I, st, lambda x: split_real(x, 'real'), a[0]), st))
    F['imag'] = Builtin('imag', lambda I, st, a, k: one(
        L.arrattr(I, st, a[0], 'imag') if isinstance(a[0], Arr) else emap1(I, st, lambda x: split_real(x, 'imag'), a[0]), st))
    F['sqrt'] = Builtin('sqrt', lambda I, st, a, k: one(emap1(I, st, lambda x: power(x, Fr(1, 2)), a[0]), st))
    F['square'] = Builtin('square', lambda I, st, a, k: one(emap1(I, st, lambda x: mul(x, x), a[0]), st))
    F['negative'] = Builtin('negative', lambda I, st, a, k: one(emap1(I, st, neg, a[0]), st))

    def uf(name):
        def g(x):
            c = x.const
            if c is not None:
                try:
                    return num(Fr(getattr(math, name)(float(c))))
                except Exception:
                    pass
            return op(name, x, axis=axisv(x), pos=name in ('exp', 'cosh', 'spacing'))
        return Builtin(name, lambda I, st, a, k: one(emap1(I, st, g, a[0]), st))
    for n in UFUNC1:
        F[n] = uf(n)

    def nanc(kind):
        def g(x):
            c = x.const
            if c is not None:
                return kind == 'isfinite'
            if kind == 'isnan':
                return x is NAN or Ctx({}).iv(x)[2] and cond('isnan', x)
            if x is NAN:
                return False
            if kind == 'isinf':
                return x is INF or x is neg(INF) or cond('isinf', x)
            return False if x is INF or x is neg(INF) else cond('isfinite', x)

        def f(I, st, a, k):
            return one(L.emap(I, st, lambda x: g(L.topoly(x)), a[0]), st)
        return Builtin(kind, f)
    for n in ('isnan', 'isinf', 'isfinite'):
        F[n] = nanc(n)

    def bin2(opn):
        def f(I, st, a, k):
            r = L.emap(I, st, lambda x, y: L.sc(I, st, opn, L.topoly(x), L.topoly(y)), a[0], a[1])
            out = k.get('out')
            if isinstance(out, Arr):
                L.setitem_arr(I, st, out, (Ellipsis,), r)
                return one(out, st)
            return one(r, st)
        return f
    for n, o in (('multiply', 'Mult'), ('add', 'Add'), ('subtract', 'Sub'), ('divide', 'Div'), ('true_divide', 'Div'),
                 ('power', 'Pow'), ('float_power', 'Pow'), ('pow', 'Pow')):
        F[n] = Builtin(n, bin2(o))
    for n, o in (('greater', 'Gt'), ('less', 'Lt'), ('greater_equal', 'GtE'), ('less_equal', 'LtE'), ('equal', 'Eq'),
                 ('not_equal', 'NotEq')):
        F[n] = Builtin(n, lambda I, st, a, k, o=o: one(L.compare(I, st, o, a[0], a[1]), st))

    def mx(name):
        def f(I, st, a, k):
            return one(L.emap(I, st, lambda x, y: L.minmax(name, L.topoly(x), L.topoly(y)), a[0], a[1]), st)
        return Builtin(name, f)
    F['maximum'], F['minimum'] = mx('npmax'), mx('npmin')
    F['fmax'], F['fmin'] = mx('fmax'), mx('fmin')

    @reg('clip')
    def _(I, st, a, k):
        v, lo, hi = argn(a, k, ('a', 'a_min', 'a_max'), (None, None))
        lo = k.get('min', lo)
        hi = k.get('max', hi)
        if lo is not None:
            v = F['maximum'].fn(I, st, [v, lo], {})[0][0]
        if hi is not None:
            v = F['minimum'].fn(I, st, [v, hi], {})[0][0]
        return one(v, st)

    @reg('nextafter')
    def _(I, st, a, k):
        def g(x, y):
            x, y = L.topoly(x), L.topoly(y)
            return op('nextafter', x, y, axis=axisv(x))
        return one(L.emap(I, st, g, a[0], a[1]), st)

    @reg('copysign')
    def _(I, st, a, k):
        def g(x, y):
            x, y = L.topoly(x), L.topoly(y)
            return mul(absv(x), sign(y))
        return one(L.emap(I, st, g, a[0], a[1]), st)

    @reg('hypot')
    def _(I, st, a, k):
        def g(x, y):
            x, y = L.topoly(x), L.topoly(y)
            return power(add(mul(x, x), mul(y, y)), Fr(1, 2))
        return one(L.emap(I, st, g, a[0], a[1]), st)

    @reg('where')
    def _(I, st, a, k):
        if len(a) == 1:
            return one(L.unkval(I, st, 'where', L.deps(st, a)), st)
        return one(L.emap(I, st, lambda m, x, y: ite_(L, m, x, y), a[0], a[1], a[2]), st)

    def tocnd(x):
        return x if isinstance(x, (bool, Cond)) else L.tocond(x)

    @reg('logical_and')
    def _(I, st, a, k):
        return one(L.emap(I, st, lambda x, y: c_and(tocnd(x), tocnd(y)), a[0], a[1]), st)

    @reg('logical_or')
    def _(I, st, a, k):
        return one(L.emap(I, st, lambda x, y: c_or(tocnd(x), tocnd(y)), a[0], a[1]), st)

    @reg('logical_not', 'invert')
    def _(I, st, a, k):
        return one(L.emap(I, st, lambda x: c_not(tocnd(x)), a[0]), st)

    # ---------------------------------------------------------- reductions
    F['all'] = Builtin('all', lambda I, st, a, k: one(L.allany(I, st, a[0], True), st))
    F['any'] = Builtin('any', lambda I, st, a, k: one(L.allany(I, st, a[0], False), st))

    def red(name):
        def f(I, st, a, k):
            v = a[0]
            if isinstance(v, (Ref, tuple)):
                v = L.toarr(st, v)
            if not isinstance(v, Arr):
                return one(v, st)
            ax = ax_arg(k, a)
            return one(L.reduce_(I, st, name, v, ax if isinstance(ax, int) else None), st)
        return Builtin(name, f)
    F['sum'] = red('sum')
    F['max'] = F['amax'] = F['nanmax'] = red('amax')
    F['min'] = F['amin'] = F['nanmin'] = red('amin')

    @reg('mean')
    def _(I, st, a, k):
        r = F['sum'].fn(I, st, a, k)[0][0]
        s, c = L.asarr(st, a[0])
        if s is None:
            return one(L.unkval(I, st, 'mean', L.deps(st, a)), st)
        ax = ax_arg(k, a)
        n = ONE
        for i, x in enumerate(s):
            if ax is None or i == ax % len(s):
                n = mul(n, L.total(x))
        return one(L.binop(I, st, 'Div', r, n), st)

    @reg('prod')
    def _(I, st, a, k):
        s, c = L.asarr(st, a[0])
        if s is not None and all(x is ONE for y in s for x in y):
            r = ONE
            for x in c.values():
                r = mul(r, L.topoly(x))
            return one(r, st)
        vs = [L.topoly(x) for x in c.values()]
        return one(op('prod', *vs, axis=False, nonneg=all(is_nonneg(v) for v in vs)), st)

    @reg('size')
    def _(I, st, a, k):
        return one(L.getattr_any(I, st, a[0], 'size'), st)

    @reg('shape')
    def _(I, st, a, k):
        return one(L.getattr_any(I, st, a[0], 'shape'), st)

    @reg('ndim')
    def _(I, st, a, k):
        return one(L.getattr_any(I, st, a[0], 'ndim'), st)

    @reg('isscalar')
    def _(I, st, a, k):
        return one(isinstance(a[0], (Poly, bool, Cond, str)), st)

    @reg('iscomplexobj', 'iscomplex')
    def _(I, st, a, k):
        return one(L.isdtype_complex, st)

    @reg('isreal', 'isrealobj')
    def _(I, st, a, k):
        return one(not L.isdtype_complex, st)

    @reg('allclose', 'isclose', 'array_equal')
    def _(I, st, a, k):
        s1, c1 = L.asarr(st, a[0])
        s2, c2 = L.asarr(st, a[1])
        v1, v2 = list(c1.values()), list(c2.values())
        if s1 is not None and s1 == s2 and all(x is y for x, y in zip(v1, v2)):
            return one(True, st)
        return one(cond('allclose', tuple(L.topoly(x) for x in v1), tuple(L.topoly(x) for x in v2)), st)

    # ---------------------------------------------------------- types
    def typ(name):
        def f(I, st, a, k):
            if not a:
                return one(ZERO, st)
            if isinstance(a[0], Arr):
                if a[0].axes == ():
                    return one(L.truthcell(I, st, a[0]), st)
                return fn_array(I, st, a, {})
            if isinstance(a[0], (Poly, bool, Cond)):
                return one(L.topoly(a[0]), st)
            return fn_array(I, st, a, {})
        return Typ(name, f)
    for n in DTYPES:
        F[n] = typ(n)
    F['ndarray'] = Typ('ndarray', None)
    F['dtype'] = Typ('dtype', lambda I, st, a, k: one(DT, st))

    @reg('finfo')
    def _(I, st, a, k):
        if a and isinstance(a[0], Typ) and a[0] is not DT:
            return one(FInfo(a[0].name), st)
        return one(FI, st)

    @reg('issubdtype')
    def _(I, st, a, k):
        t = a[1]
        n = t.name if isinstance(t, Typ) else '?'
        if isinstance(a[0], Typ) and a[0] is not DT:
            m = a[0].name
            if n in ('complexfloating',):
                return one(m.startswith('c'), st)
        if n in ('complexfloating', 'complex128', 'complex'):
            return one(L.isdtype_complex, st)
        if n in ('floating', 'float64', 'float'):
            return one(not L.isdtype_complex, st)
        if n in ('inexact', 'number', 'generic'):
            return one(True, st)
        return one(False, st)

    @reg('result_type', 'promote_types', 'common_type')
    def _(I, st, a, k):
        return one(DT, st)

    # ---------------------------------------------------------- matrices
    @reg('diag', 'diagonal')
    def _(I, st, a, k):
        s, c = L.asarr(st, a[0])
        if s is None:
            return one(L.unkval(I, st, 'diag', L.deps(st, a)), st)
        kk = k.get('k', a[1] if len(a) > 1 else None)
        kk = int(kk.const) if isinstance(kk, Poly) and kk.const is not None else 0
        if len(s) == 2:
            data = {}
            n = min(len(s[0]), len(s[1]))
            segs = []
            j = 0
            for i in range(len(s[0])):
                if not 0 <= i + kk < len(s[1]):
                    continue
                v = c[(i, i + kk)]
                if s[0][i] is not ONE:
                    v = op('diagof', v, axis=True)
                data[(j,)] = v
                segs.append(s[0][i])
                j += 1
            r = L.mkarr(st, (tuple(segs),), data, orig=st.o(a[0].b).meta['orig'] if isinstance(a[0], Arr) else frozenset(),
                        alias=frozenset([a[0].b]) if isinstance(a[0], Arr) else frozenset())
            return one(r, st)
        if len(s) == 1:
            segs = s[0]
            data = {}
            for i in range(len(segs)):
                for j in range(len(segs)):
                    x = L.topoly(c[(i,)])
                    data[(i, j)] = ZERO if i != j else x if segs[i] is ONE else (
                        mul(x, EYE) if not axisv(x) else op('diagm', x, axis=True, matrix=True))
            if kk != 0:
                return one(L.unkval(I, st, 'diag', L.deps(st, a)), st)
            return one(L.mkarr(st, (segs, segs), data), st)
        return one(L.unkval(I, st, 'diag', L.deps(st, a)), st)

    @reg('diags_array', 'diags')
    def _(I, st, a, k):
        v = a[0]
        its = None
        if isinstance(v, (tuple, Ref)):
            its = items(I, st, v)
        x = its[0] if its and len(its) == 1 else v
        r = F['diag'].fn(I, st, [x], {})
        for y, s in r:
            if isinstance(y, Arr):
                s.w(y.b).meta['sparse'] = True
        return r

    @reg('csc_array', 'csr_array', 'csc_matrix', 'csr_matrix', 'coo_array', 'coo_matrix', 'lil_array', 'dia_array')
    def _(I, st, a, k):
        v = a[0]
        if isinstance(v, Arr):
            s, c = L.asarr(st, v)
            if s is not None:
                return one(L.mkarr(st, s, dict(c), sparse=True,
                                   orig=st.o(v.b).meta['orig'] if st.o(v.b).meta.get('sparse') else frozenset(),
                                   alias=frozenset([v.b]) if st.o(v.b).meta.get('sparse') else frozenset()), st)
        return one(L.unkval(I, st, 'csc', L.deps(st, a)), st)

    @reg('issparse')
    def _(I, st, a, k):
        v = a[0]
        if isinstance(v, Arr):
            if st.o(v.b).meta.get('sparse'):
                return one(True, st)
            c = list(st.o(v.b).d.values())
            if v.axes is None and any(isinstance(x, Poly) and (the_atom(x) is not None) and
                                      (the_atom(x).info or {}).get('unk') for x in c):
                return one(cond('issparse', *[L.topoly(x) for x in c]), st)
        return one(False, st)

    @reg('outer')
    def _(I, st, a, k):
        x, y = L.toarr(st, a[0]), L.toarr(st, a[1])
        if x.axes is None or y.axes is None:
            return one(L.unkval(I, st, 'outer', L.deps(st, a)), st)
        s1, c1 = L.asarr(st, x)
        s2, c2 = L.asarr(st, y)
        if len(s1) != 1 or len(s2) != 1:
            return one(L.unkval(I, st, 'outer', L.deps(st, a)), st)
        data = {}
        for (i,), u in c1.items():
            for (j,), v in c2.items():
                if s1[0][i] is not ONE and s2[0][j] is not ONE:
                    data[(i, j)] = op('outer', u, v, axis=True, matrix=True)
                else:
                    data[(i, j)] = mul(L.topoly(u), L.topoly(v))
        return one(L.mkarr(st, (s1[0], s2[0]), data), st)

    @reg('dot', 'matmul', 'inner', 'vdot')
    def _(I, st, a, k):
        x, y = a[0], a[1]
        if isinstance(x, Poly) or isinstance(y, Poly):
            return one(L.binop(I, st, 'Mult', x, y), st)
        r = L.matmul(I, st, x, y)
        out = k.get('out')
        if isinstance(out, Arr):
            L.setitem_arr(I, st, out, (Ellipsis,), r)
            return one(out, st)
        return one(r, st)

    @reg('tensordot')
    def _(I, st, a, k):
        ax = k.get('axes', a[2] if len(a) > 2 else None)
        if isinstance(ax, Poly) and ax.const == 1:
            return one(L.matmul(I, st, a[0], a[1]), st)
        return one(L.unkval(I, st, 'tensordot', L.deps(st, a[:2])), st)

    @reg('einsum')
    def _(I, st, a, k):
        sub = a[0].replace(' ', '') if isinstance(a[0], str) else ''
        if '->' not in sub or len(a) != 3:
            return one(L.unkval(I, st, 'einsum', L.deps(st, a[1:])), st)
        ins, out = sub.split('->')
        p, q = ins.split(',')
        x, y = L.toarr(st, a[1]), L.toarr(st, a[2])
        if len(p) <= 2 and len(q) <= 2:
            com = [c for c in p if c in q]
            if len(com) == 1 and com[0] not in out:
                if p.index(com[0]) != len(p) - 1:
                    x = L.transpose_arr(st, x)
                    p = p[::-1]
                if q.index(com[0]) != 0:
                    y = L.transpose_arr(st, y)
                    q = q[::-1]
                r = L.matmul(I, st, x, y)
                if out == p[:-1] + q[1:]:
                    return one(r, st)
                if out == (p[:-1] + q[1:])[::-1]:
                    return one(L.transpose_arr(st, r), st)
        return one(L.unkval(I, st, 'einsum', L.deps(st, a[1:])), st)

    @reg('transpose')
    def _(I, st, a, k):
        if len(a) > 1 and not (isinstance(a[1], tuple) and len(a[1]) == 2):
            pass
        return one(L.transpose_arr(st, a[0]) if isinstance(a[0], Arr) else a[0], st)

    @reg('reshape')
    def _(I, st, a, k):
        return one(L.reshape(I, st, L.toarr(st, a[0]), 'reshape', (a[1],), k), st)

    @reg('ravel')
    def _(I, st, a, k):
        return one(L.reshape(I, st, L.toarr(st, a[0]), 'ravel', tuple(a[1:]), k), st)

    @reg('squeeze')
    def _(I, st, a, k):
        v = a[0]
        if not isinstance(v, Arr) or v.axes is None:
            return one(v, st)
        sz = L.sizes(st, v)
        axes, fixed = [], list(v.fixed)
        for (d, segs), s in zip(v.axes, sz):
            if s == (ONE,):
                if d != -1:
                    fixed.append((d, segs[0]))
            else:
                axes.append((d, segs))
        r = Arr(v.b, tuple(axes), tuple(sorted(fixed)))
        return one(r, st)

    @reg('expand_dims')
    def _(I, st, a, k):
        ax = ax_arg(k, a)
        n = len(a[0].axes) + 1 if a[0].axes is not None else None
        if n is None:
            return one(a[0], st)
        axes = list(a[0].axes)
        axes.insert(ax % n, (-1, (0,)))
        return one(Arr(a[0].b, tuple(axes), a[0].fixed), st)

    @reg('flip')
    def _(I, st, a, k):
        return one(L.getitem(I, st, a[0], Slice_(None, None, num(-1))), st)

    @reg('may_share_memory', 'shares_memory')
    def _(I, st, a, k):
        return one(I.unkcond('share') if hasattr(I, 'unkcond') else False, st)

    @reg('polyval')
    def _(I, st, a, k):
        its = L.iterate(I, st, a[0])
        if its is None:
            return one(L.unkval(I, st, 'polyval', L.deps(st, a)), st)
        r = ZERO
        for c in its:
            r = L.binop(I, st, 'Add', L.binop(I, st, 'Mult', r, a[1]), c)
        return one(r, st)

    @reg('vander', 'interp', 'sort', 'argsort', 'unique', 'argmax', 'argmin', 'searchsorted', 'nonzero', 'trace', 'round',
         'around', 'median', 'std', 'var', 'roots', 'cross', 'kron', 'tril', 'triu')
    def _(I, st, a, k):
        return one(L.unkval(I, st, 'np', L.deps(st, a)), st)

    @reg('errstate')
    def _(I, st, a, k):
        return one(None, st)

    # ---------------------------------------------------------- linear algebra
    @reg('linalg.norm')
    def _(I, st, a, k):
        v = a[0]
        o = k.get('ord', a[1] if len(a) > 1 else None)
        if isinstance(v, Poly):
            return one(absv(v), st)
        s, c = L.asarr(st, v)
        if s == ():
            return one(absv(L.topoly(c[()])), st)
        if s is None or (o is not None and not (isinstance(o, Poly) and o.const == 2 and len(s) == 1)) or 'axis' in k:
            nm = 'norm' + (str(o.const) if isinstance(o, Poly) and o.const is not None else str(o) if isinstance(o, str) else
                           'inf' if o is INF else '?' if o is not None else '2')
            if 'axis' in k and s is not None:
                return one(L.unkval(I, st, nm, L.deps(st, [v])), st)
            return one(op(nm, tuple(L.topoly(x) for x in c.values()), nonneg=True, axis=False, nan=True), st)
        tot = ZERO
        for p, x in c.items():
            x = L.topoly(x)
            size = ONE
            for d, i in enumerate(p):
                size = mul(size, s[d][i])
            if size is ONE:
                tot = add(tot, mul(absv(x), absv(x)))
            elif len(s) == 2 and sum(s[d][i] is not ONE for d, i in enumerate(p)) == 2:
                tot = add(tot, op('normF', x, nonneg=True, axis=False))
            else:
                tot = add(tot, L.absdot(absv(x), size))
        return one(power(tot, Fr(1, 2)), st)

    @reg('linalg.solve')
    def _(I, st, a, k):
        A, b = a[0], a[1]
        s, c = L.asarr(st, A)
        if s is not None and len(c) == 1 and len(s) == 2:
            M = L.topoly(next(iter(c.values())))
            return one(L.lusolve(I, st, EYE if M is EYE else op('lu', M, axis=True), b), st)
        return one(L.unkval(I, st, 'solve', L.deps(st, [A, b])), st)

    @reg('lu_factor', 'splu', 'factorized')
    def _(I, st, a, k):
        A = a[0]
        st.event('lu', I.site())
        if k.get('overwrite_a') is True and isinstance(A, Arr):
            L.wevent(I, st, A, 'overwrite_a')
        s, c = L.asarr(st, A)
        if len(c) == 1:
            M = L.topoly(next(iter(c.values())))
            r = op('lu', M, axis=True, matrix=True)
            at = the_atom(r)
            at.info['lu'] = True
            return one(r, st)
        return one(I.unk('lu', L.deps(st, [A])), st)

    @reg('lu_solve')
    def _(I, st, a, k):
        if k.get('overwrite_b') is True and isinstance(a[1], Arr):
            L.wevent(I, st, a[1], 'overwrite_b')
        LU = a[0]
        return one(L.lusolve(I, st, LU, a[1]), st)

    @reg('linalg.inv')
    def _(I, st, a, k):
        return one(L.unkval(I, st, 'inv', L.deps(st, a)), st)

    @reg('linalg.svd')
    def _(I, st, a, k):
        s, c = L.asarr(st, a[0])
        vs = tuple(L.topoly(x) for x in c.values())
        sv = L.mkarr(st, ((sym('nsv', pos=True, int=True),),), {(0,): op('svd', vs, axis=True, nonneg=True)})
        if k.get('compute_uv') is False:
            return one(sv, st)
        return one((L.unkval(I, st, 'U', list(vs)), sv, L.unkval(I, st, 'V', list(vs))), st)

    @reg('linalg.matrix_rank')
    def _(I, st, a, k):
        s, c = L.asarr(st, a[0])
        return one(op('rank', tuple(L.topoly(x) for x in c.values()), axis=False, nonneg=True, int=True), st)

    @reg('block_diag')
    def _(I, st, a, k):
        xs = [L.asarr(st, x) for x in a]
        if any(s is None or len(s) != 2 for s, c in xs):
            return one(L.unkval(I, st, 'block_diag', L.deps(st, a)), st)
        rows = sum((s[0] for s, c in xs), ())
        cols = sum((s[1] for s, c in xs), ())
        data = {p: ZERO for p in positions((rows, cols))}
        r0 = c0 = 0
        for s, c in xs:
            for (i, j), v in c.items():
                data[(r0 + i, c0 + j)] = v
            r0 += len(s[0])
            c0 += len(s[1])
        return one(L.mkarr(st, (rows, cols), data), st)

    @reg('group_columns')
    def _(I, st, a, k):
        return one(L.unkval(I, st, 'groups', L.deps(st, a)), st)

    @reg('copyto')
    def _(I, st, a, k):
        dst, src = a[0], a[1]
        if isinstance(dst, Arr):
            w = k.get('where', a[3] if len(a) > 3 else None)
            if w is not None and not isinstance(w, bool):
                src = L.emap(I, st, lambda c, x, o: ite_(L, c, x, o), w, src, dst)
            L.setitem_arr(I, st, dst, (Ellipsis,), src)
        return one(None, st)

    @reg('fill_diagonal', 'put', 'place', 'putmask', 'put_along_axis')
    def _(I, st, a, k):
        if isinstance(a[0], Arr):
            L.wevent(I, st, a[0], 'item')
            vals = []
            for x in a[1:]:
                if isinstance(x, Poly):
                    vals.append(x)
                elif isinstance(x, Arr):
                    vals += [L.topoly(c) for c in L.asarr(st, x)[1].values() if not isinstance(c, (bool, Cond))]
            L.weak(st, a[0].b, vals)
        return one(None, st)

    @reg('CubicHermiteSpline')
    def _(I, st, a, k):
        T, Y, dY = argn(a, k, ('x', 'y', 'dydx'), ())[:3]
        arrs = []
        for v in (T, Y, dY):
            s, c = L.asarr(st, v)
            if s is None:
                return one(L.unkval(I, st, 'CubicHermiteSpline', L.deps(st, a)), st)
            arrs.append(L.mkarr(st, s, {p: L.topoly(x) for p, x in c.items()}))
        return one(Ref(st.new('list', arrs, {'call': hermite})), st)

    def hermite(I, st, f, a, k):
        T, Y, dY = st.o(f.a).d
        ts = [L.topoly(x) for p, x in sorted(L.asarr(st, T)[1].items())]
        ys, yc = L.asarr(st, Y)
        _, fc = L.asarr(st, dY)
        rest = sorted({p[1:] for p in yc})

        def at(t, q):
            out = None
            for i in range(len(ts) - 2, -1, -1):
                d = add(ts[i + 1], neg(ts[i]))
                x = mul(add(t, neg(ts[i])), inv(d))
                x2 = mul(x, x)
                x3 = mul(x2, x)
                g = lambda c, i=i: L.topoly(c[(i,) + q])
                g1 = lambda c, i=i: L.topoly(c[(i + 1,) + q])
                v = mul(add(ONE, add(scale(x2, -3), scale(x3, 2))), g(yc))
                v = add(v, mul(add(scale(x2, 3), scale(x3, -2)), g1(yc)))
                v = add(v, mul(mul(add(x, add(scale(x2, -2), x3)), d), g(fc)))
                v = add(v, mul(mul(add(x3, neg(x2)), d), g1(fc)))
                out = v if out is None else ite(cond('lt', t, ts[i + 1]), v, out)
            return out
        t = a[0]
        s, c = L.asarr(st, t)
        if s is None or len(ts) < 2:
            return one(L.unkval(I, st, 'hermite', L.deps(st, [T, Y, dY] + list(a))), st)
        data = {tuple(p) + q: at(L.topoly(x), q) for p, x in c.items() for q in rest}
        return one(L.mkarr(st, tuple(s) + tuple(ys[1:]), data), st)

    # ------------------------------------------------------------ out=
    def with_out(n, f):
        def g(I, st, a, k):
            out = None
            if 'out' in k:
                k = dict(k)
                out = k.pop('out')
                if isinstance(out, tuple) and len(out) == 1:
                    out = out[0]
            elif len(a) == nargs.get(n, 99) + 1 and isinstance(a[-1], Arr):
                a, out = a[:-1], a[-1]
            where = k.get('where') if out is not None else None
            if not isinstance(out, Arr):
                return f(I, st, a, k)
            if where is not None:
                k = {x: v for x, v in k.items() if x != 'where'}
            res = []
            for v, s in f(I, st, a, k):
                if where is not None:
                    m = where
                    v = L.emap(I, s, lambda c, x, o: ite_(L, c, x, o), m, v, out)
                L.setitem_arr(I, s, out, (Ellipsis,), v)
                res.append((out, s))
            return res
        return g
    nargs = {n: 2 for n in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'power', 'float_power', 'maximum', 'minimum',
                            'fmax', 'fmin', 'dot', 'matmul', 'copysign')}
    nargs.update({n: 1 for n in ('abs', 'absolute', 'fabs', 'sqrt', 'conj', 'conjugate', 'negative', 'square', 'reciprocal', 'exp', 'sign')})
    for n, b in list(F.items()):
        if isinstance(b, Builtin):
            F[n] = Builtin(b.name, with_out(n, b.fn))


def toarr1(self, st, v):
    if isinstance(v, Arr):
        return v
    s, c = self.asarr(st, v)
    if s == ():
        return self.mkarr(st, ((ONE,),), {(0,): c[()]})
    return self.toarr(st, v)


def getattr_any(self, I, st, v, name):
    if isinstance(v, Arr):
        return self.arrattr(I, st, v, name)
    if isinstance(v, (Ref, tuple)):
        return self.arrattr(I, st, self.toarr(st, v), name)
    return self.scattr(I, st, v, name)


for _n in ('make_numpy', 'toarr1', 'getattr_any'):
    setattr(Lib, _n, globals()[_n])
