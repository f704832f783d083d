"""numpy / scipy / builtin function models (methods added to Lib)."""
from . import lib as _lib
from .lib import *
from .lib import Lib, Rng, Seq, RObj, FInfo, Opaque, NotImpl, NOTIMPL, DT, DTF, FI, EXCS, one
from .arr import conj, split_real, mm, dot, transpose, positions, ite_, v_real, axisv, EYE, IMAG
from .interp import Arr, Ref, Slice_, Typ, Builtin, Bound, Exc, ExcT, ExtMod


def argn(args, kw, names, defaults=()):
    """bind positional/keyword arguments by name"""
    out = dict(zip(names, args))
    for k, v in kw.items():
        if k in names:
            out[k] = v
    for n, d in zip(names[len(names) - len(defaults):], defaults):
        out.setdefault(n, d)
    return [out.get(n) for n in names]


def make_builtins(self):
    B = self.builtins
    L = self

    def reg(name):
        def d(f):
            B[name] = Builtin(name, f)
            return f
        return d

    B['True'], B['False'], B['None'] = True, False, None
    B['NotImplemented'] = NOTIMPL
    B['Ellipsis'] = Ellipsis
    for e in EXCS:
        B[e] = ExcT(e)

    def fn_float(I, st, a, k):
        if not a:
            return one(ZERO, st)
        v = a[0]
        if isinstance(v, str):
            return one(INF if 'inf' in v else NAN if v == 'nan' else I.unk('float'), st)
        if isinstance(v, Arr):
            return one(L.truthcell(I, st, v), st)
        return one(L.topoly(v), st)

    def fn_int(I, st, a, k):
        v = a[0] if a else ZERO
        if isinstance(v, Arr):
            v = L.truthcell(I, st, v)
        if isinstance(v, (Poly, bool, Cond)):
            v = L.topoly(v)
            c = v.const
            if c is not None:
                return one(num(int(c)), st)
            at = the_atom(v)
            if at is not None and at.info and at.info.get('int'):
                return one(v, st)
            if all(c.denominator == 1 and all(L.isint(ATOMS[x]) for x, e in m) for m, c in v.terms.items()):
                return one(v, st)
            return one(op('int', v, int=True, nonneg=is_nonneg(v)), st)
        return one(I.unk('int', L.deps(st, [v])), st)

    def fn_tuple(I, st, a, k):
        if not a:
            return one((), st)
        its = L.iterate(I, st, a[0])
        return one(tuple(its) if its is not None else a[0], st)

    def fn_list(I, st, a, k):
        if not a:
            return one(Ref(st.new('list', [])), st)
        its = L.iterate(I, st, a[0])
        if its is None:
            return one(Ref(st.new('list', [I.unk('item', L.deps(st, a))], {'unklen': True})), st)
        return one(Ref(st.new('list', its)), st)

    def fn_set(I, st, a, k):
        its = L.iterate(I, st, a[0]) if a else []
        if its is None:
            return one(Ref(st.new('set', [I.unk('item', L.deps(st, a))], {'unklen': True})), st)
        return one(Ref(st.new('set', list(dict.fromkeys(its)))), st)

    def fn_dict(I, st, a, k):
        d = {}
        for x in a:
            if isinstance(x, Ref) and st.o(x.a).kind == 'dict':
                d.update(st.o(x.a).d)
            else:
                for kv in L.iterate(I, st, x) or []:
                    if isinstance(kv, tuple) and len(kv) == 2:
                        d[kv[0]] = kv[1]
        d.update(k)
        return one(Ref(st.new('dict', d)), st)

    def fn_bool(I, st, a, k):
        return one(L.truthy(I, st, a[0]) if a else False, st)

    def fn_str(I, st, a, k):
        v = a[0] if a else ''
        return one(v if isinstance(v, str) else '{}', st)

    B['float'] = Typ('float', fn_float)
    B['int'] = Typ('int', fn_int)
    B['bool'] = Typ('bool', fn_bool)
    B['str'] = Typ('str', fn_str)
    B['tuple'] = Typ('tuple', fn_tuple)
    B['list'] = Typ('list', fn_list)
    B['set'] = Typ('set', fn_set)
    B['frozenset'] = Typ('set', fn_set)
    B['dict'] = Typ('dict', fn_dict)
    B['complex'] = Typ('complex', lambda I, st, a, k: one(
        add(L.topoly(a[0]), mul(IMAG, L.topoly(a[1]))) if len(a) > 1 else L.topoly(a[0]), st))
    B['object'] = Typ('object', lambda I, st, a, k: one(I.unk('object'), st))

    def fn_type(I, st, a, k):
        v = a[0]
        if isinstance(v, Ref):
            h = st.o(v.a)
            if h.kind == 'inst':
                return one(Ref(h.meta['cls']), st)
            return one(B.get(h.kind, Typ(h.kind)), st)
        if isinstance(v, str):
            return one(B['str'], st)
        if isinstance(v, (bool, Cond)):
            return one(B['bool'], st)
        if isinstance(v, tuple):
            return one(B['tuple'], st)
        return one(Typ('?type'), st)
    B['type'] = Typ('type', fn_type)
    B['slice'] = Typ('slice', lambda I, st, a, k: one(
        Slice_(None, a[0], None) if len(a) == 1 else Slice_(*(list(a) + [None] * (3 - len(a)))), st))

    def fn_range(I, st, a, k):
        a = [L.topoly(x) for x in a]
        if len(a) == 1:
            r = Rng(ZERO, a[0], ONE)
        elif len(a) == 2:
            r = Rng(a[0], a[1], ONE)
        else:
            r = Rng(*a)
        return one(r, st)
    B['range'] = Typ('range', fn_range)

    @reg('len')
    def _(I, st, a, k):
        v = a[0]
        if isinstance(v, (tuple, str)):
            return one(num(len(v)), st)
        if isinstance(v, Ref):
            h = st.o(v.a)
            if h.kind in ('list', 'dict', 'set') and not h.meta.get('unklen'):
                return one(num(len(h.d)), st)
            return one(op('len', *L.deps(st, [v]), nonneg=True, int=True), st)
        if isinstance(v, Arr) and v.axes:
            return one(L.shape(st, v)[0], st)
        if isinstance(v, (Rng, Seq)):
            its = L.iterate(I, st, v)
            if its is not None:
                return one(num(len(its)), st)
        return one(I.unk('len', L.deps(st, [v])), st)

    @reg('enumerate')
    def _(I, st, a, k):
        s, start = argn(a, k, ['iterable', 'start'], (ZERO,))
        return one(Seq('enumerate', (s, start)), st)

    @reg('zip')
    def _(I, st, a, k):
        return one(Seq('zip', tuple(a)), st)

    @reg('reversed')
    def _(I, st, a, k):
        return one(Seq('reversed', tuple(a)), st)

    @reg('iter')
    def _(I, st, a, k):
        return one(a[0], st)

    @reg('next')
    def _(I, st, a, k):
        its = L.iterate(I, st, a[0])
        return one(its[0] if its else I.unk('next', L.deps(st, a)), st)

    @reg('sorted')
    def _(I, st, a, k):
        its = L.iterate(I, st, a[0])
        if its is None:
            return one(I.unk('sorted', L.deps(st, a)), st)
        if all(isinstance(x, Poly) and x.const is not None for x in its):
            its = sorted(its, key=lambda x: x.const)
        return one(Ref(st.new('list', list(its))), st)

    def folded(name, a, I, st, k):
        if len(a) == 1:
            its = L.iterate(I, st, a[0])
            if its is None:
                if isinstance(a[0], Arr):
                    return L.reduce_(I, st, 'a' + name, a[0])
                return I.unk(name, L.deps(st, a))
            a = its
            if not a:
                return k.get('default', I.unk(name))
        r = None
        for x in a:
            if isinstance(x, Arr):
                x = L.truthcell(I, st, x)
            if not isinstance(x, (Poly, bool, Cond)):
                return I.unk(name, L.deps(st, a))
            x = L.topoly(x)
            r = x if r is None else L.minmax(name, r, x)
        return r

    @reg('min')
    def _(I, st, a, k):
        return one(folded('min', a, I, st, k), st)

    @reg('max')
    def _(I, st, a, k):
        return one(folded('max', a, I, st, k), st)

    @reg('sum')
    def _(I, st, a, k):
        its = L.iterate(I, st, a[0])
        if its is None:
            if isinstance(a[0], Arr):
                return one(L.reduce_(I, st, 'sum', a[0]), st)
            return one(I.unk('sum', L.deps(st, a)), st)
        r = a[1] if len(a) > 1 else k.get('start', ZERO)
        for x in its:
            r = L.binop(I, st, 'Add', r, x)
        return one(r, st)

    @reg('abs')
    def _(I, st, a, k):
        return one(L.emap(I, st, lambda x: absv(L.topoly(x)), L.num2(I, st, a[0])) if isinstance(a[0], (Arr, Poly, bool, Cond, Ref)) else I.unk('abs'), st)

    @reg('round')
    def _(I, st, a, k):
        v = L.topoly(a[0]) if isinstance(a[0], (Poly, bool, Cond)) else I.unk('r')
        if v.const is not None and len(a) == 1:
            return one(num(round(v.const)), st)
        return one(op('round', v, int=len(a) == 1, nonneg=is_nonneg(v)), st)

    @reg('pow')
    def _(I, st, a, k):
        return one(L.binop(I, st, 'Pow', a[0], a[1]), st)

    @reg('divmod')
    def _(I, st, a, k):
        return one((L.binop(I, st, 'FloorDiv', a[0], a[1]), L.binop(I, st, 'Mod', a[0], a[1])), st)

    @reg('all')
    def _(I, st, a, k):
        return one(L.allany(I, st, a[0], True), st)

    @reg('any')
    def _(I, st, a, k):
        return one(L.allany(I, st, a[0], False), st)

    @reg('print')
    def _(I, st, a, k):
        return one(None, st)

    @reg('repr')
    def _(I, st, a, k):
        return one('{}', st)
    B['format'] = B['repr']

    @reg('id')
    def _(I, st, a, k):
        return one(I.unk('id'), st)
    B['hash'] = B['id']

    @reg('callable')
    def _(I, st, a, k):
        v = a[0]
        if isinstance(v, (Builtin, Bound, Typ)):
            return one(True, st)
        if isinstance(v, Ref):
            return one(st.o(v.a).kind in ('func', 'class'), st)
        if isinstance(v, Poly):
            at = the_atom(v)
            if at is not None and at.info and at.info.get('unk'):
                return one(cond('callable', v), st)
        return one(False, st)

    @reg('isinstance')
    def _(I, st, a, k):
        ts = a[1] if isinstance(a[1], tuple) else (a[1],)
        r = False
        for t in ts:
            r = c_or(r, L.isinst(I, st, a[0], t))
        return one(r, st)

    @reg('issubclass')
    def _(I, st, a, k):
        c, t = a
        ts = t if isinstance(t, tuple) else (t,)
        if isinstance(c, Ref) and st.o(c.a).kind == 'class':
            return one(any(isinstance(x, Ref) and x.a in st.o(c.a).meta['mro'] for x in ts), st)
        if isinstance(c, Poly):
            return one(cond('opqv', (c,)), st)
        return one(False, st)

    def has(I, st, o, name):
        if isinstance(o, Ref):
            h = st.o(o.a)
            if h.kind == 'inst':
                return name in h.d or any(name in st.o(c).d for c in st.o(h.meta['cls']).meta['mro'])
            if h.kind == 'class':
                return any(name in st.o(c).d for c in h.meta['mro'])
            if h.kind == 'env':
                return name in h.d
        if isinstance(o, Arr):
            return name in ('shape', 'size', 'dtype', 'T', 'ndim', 'real', 'imag', '__len__', 'toarray') and \
                (name != 'toarray' or bool(st.o(o.b).meta.get('sparse')))
        if isinstance(o, Poly):
            return name in ('real', 'imag')
        return None

    @reg('hasattr')
    def _(I, st, a, k):
        r = has(I, st, a[0], a[1])
        if r is None:
            r = cond('opqv', ('hasattr', str(a[1])))
        return one(r, st)

    @reg('getattr')
    def _(I, st, a, k):
        if not isinstance(a[1], str):
            return one(I.unk('getattr', L.deps(st, a)), st)
        if len(a) > 2 and has(I, st, a[0], a[1]) is False:
            return one(a[2], st)
        return I.getattr(a[0], a[1], st)

    @reg('setattr')
    def _(I, st, a, k):
        if isinstance(a[1], str):
            I.setattr(a[0], a[1], a[2], st)
        return one(None, st)

    @reg('vars')
    def _(I, st, a, k):
        return I.getattr(a[0], '__dict__', st)

    @reg('map')
    def _(I, st, a, k):
        ls = [L.iterate(I, st, x) for x in a[1:]]
        if any(x is None for x in ls):
            return one(I.unk('map', L.deps(st, a[1:])), st)
        res = [([], st)]
        for xs in zip(*ls):
            res = [(acc + [v], z) for acc, y in res for v, z in I.call(a[0], list(xs), {}, y)]
        return [(Ref(y.new('list', acc)), y) for acc, y in res]

    @reg('__extraneous__')
    def _(I, st, a, k):
        st.event('extraneous', tuple(st.o(a[0].a).d) if isinstance(a[0], Ref) else (), I.site())
        return one(None, st)

    B['property'] = Builtin('property', lambda I, st, a, k: one(a[0] if a else None, st))
    B['staticmethod'] = B['property']
    B['__name__'] = '__analysed__'
    B['__file__'] = 'file'


def isinst(self, I, st, v, t):
    tn = t.name if isinstance(t, (Typ, ExcT, Builtin, Opaque)) else None
    if isinstance(t, Ref):
        if isinstance(v, Ref) and st.o(v.a).kind == 'inst':
            return t.a in st.o(st.o(v.a).meta['cls']).meta['mro']
        return False
    if isinstance(t, ExtMod):
        tn = t.name.split('.')[-1]
    if isinstance(v, bool) or isinstance(v, Cond):
        return tn in ('bool', 'int', 'object')
    if v is None:
        return tn in ('object', 'NoneType')
    if isinstance(v, Poly):
        at = the_atom(v)
        ty = at.info.get('type') if at is not None and at.info else None
        if ty:
            return tn in ((ty, 'object') + (('Number', 'Real', 'Integral', 'Rational', 'Complex') if ty == 'int' else ('Number', 'Real', 'Complex', 'floating', 'float64')))
        if tn in ('ndarray', 'str', 'tuple', 'list', 'dict', 'bool'):
            if at is not None and at.info and at.info.get('unk'):
                return cond('isinst', v, tn)
            return False
        c = v.const
        if c is not None:
            if tn in ('int', 'Integral'):
                return c.denominator == 1
            if tn in ('float',):
                return c.denominator != 1
            if tn in ('Number', 'Real', 'Complex'):
                return True
        if tn in ('int', 'Integral') and at is not None and at.info and at.info.get('int'):
            return True
        if tn in ('float', 'floating', 'Real', 'Number', 'float64', 'Complex'):
            return not (at is not None and at.info and (at.info.get('int'))) if not (at is not None and at.info and at.info.get('unk')) else cond('isinst', v, tn)
        if at is not None and at.info and at.info.get('unk'):
            return cond('isinst', v, str(tn))
        return False
    if isinstance(v, str):
        return tn in ('str', 'object')
    if isinstance(v, tuple):
        return tn in ('tuple', 'object', 'Sequence', 'Iterable')
    if isinstance(v, Arr):
        return tn in ('ndarray', 'object') if not st.o(v.b).meta.get('sparse') else False
    if isinstance(v, Ref):
        k = st.o(v.a).kind
        return tn == k or tn == 'object' or tn == 'Callable' and k in ('func', 'class') or \
            (k == 'list' and tn in ('Sequence', 'Iterable'))
    if isinstance(v, Exc):
        return True
    if isinstance(v, NotImpl):
        return False
    return False


def minmax(self, name, a, b):
    """python / numpy semantics kept apart by name; exact simplifications only"""
    if a is b:
        return a
    ca, cb = a.const, b.const
    base = name[-3:]
    if ca is not None and cb is not None:
        return num(min(ca, cb) if base == 'min' else max(ca, cb))
    for x, y in ((a, b), (b, a)):
        if x is INF:
            return y if base == 'min' else INF
        if x is neg(INF):
            return y if base == 'max' else x
    if name.startswith('np'):
        a, b = sorted((a, b), key=lambda p: p.id)
    r = op(name, a, b)
    i = the_atom(r).info
    pa, pb = self.pos(a), self.pos(b)
    na, nb = is_nonneg(a), is_nonneg(b)
    if base == 'min':
        i['nonneg'] = na and nb
        i['pos'] = pa and pb
    elif not name.startswith('np'):
        # python max(a, b) returns a when b is NaN
        i['nonneg'] = na or nb
        i['pos'] = pa or pb
    else:
        i['nonneg'] = na or nb
        i['pos'] = pa or pb
    return r


def allany(self, I, st, v, isall):
    if isinstance(v, (bool, Cond)):
        return v
    if isinstance(v, Poly):
        return self.tocond(v)
    if isinstance(v, Arr):
        vals = list(self.asarr(st, v)[1].values())
        r = isall
        for x in vals:
            c = self.tocond(x) if not isinstance(x, (bool, Cond)) else x
            if isinstance(c, Cond) and (axisv(c) or v.axes is None):
                c = cond('all', c) if isall else c_not(cond('all', c_not(c)))
            r = c_and(r, c) if isall else c_or(r, c)
        return r
    its = self.iterate(I, st, v)
    if its is None:
        return cond('opqv', tuple(self.deps(st, [v])))
    r = isall
    for x in its:
        c = self.truthy(I, st, x)
        r = c_and(r, c) if isall else c_or(r, c)
    return r


def reduce_(self, I, st, name, a, axis=None):
    """sum / amin / amax over all elements or one axis"""
    s, c = self.asarr(st, a)
    if s is None:
        v = list(c.values())
        return op(name, *[self.topoly(x) for x in v], axis=False, nan=True) if axis is None else self.unkarr(I, st, v)
    if s == ():
        return c[()]
    if axis is not None:
        k = axis % len(s)
        out = s[:k] + s[k + 1:]
    else:
        out = ()
    groups = {}
    for p, v in c.items():
        q = () if axis is None else p[:k] + p[k + 1:]
        size = ONE
        for ax, i in (enumerate(p) if axis is None else [(k, p[k])]):
            if s[ax][i] is not ONE:
                size = mul(size, s[ax][i])
        groups.setdefault(q, []).append((self.topoly(v), size))
    data = {}
    for q, vs in groups.items():
        r = None
        for v, size in vs:
            if size is not ONE:
                if name == 'sum':
                    v = self.sumseg(v, size)
                elif axisv(v):
                    v = op(name, v, axis=False, nonneg=is_nonneg(v))
            if r is None:
                r = v
            elif name == 'sum':
                r = add(r, v)
            else:
                r = self.minmax('np' + name[1:], r, v)
        data[q] = r
    return self.scal(st, out, data)


def sumseg(self, v, size):
    """sum of generic element over a symbolic segment: linear over scalar factors; squares become dot products"""
    from .arr import split_scalar
    groups = {}
    for m, c in v.terms.items():
        s, r = split_scalar(m)
        groups.setdefault(s, ZERO)
        groups[s] = add(groups[s], mk({r: c}))
    out = ZERO
    for s, p in groups.items():
        if not axisv(p):
            out = add(out, mul(mul(s, p), size))
            continue
        if len(p.terms) == 1:
            (m, c), = p.terms.items()
            if all(e % 2 == 0 for a, e in m):
                x = mk({tuple((a, e // 2) for a, e in m): Fr(1)})
                # |x|^2 = x conj(x)
                d = []
                for a, e in m:
                    d.append((a, e))
                out = add(out, mul(mul(s, num(c)), self.absdot(x, size)))
                continue
            k = [(a, e) for a, e in m]
            if len(k) == 2 and all(e == 1 for a, e in k):
                out = add(out, mul(mul(s, num(c)), dot(of_atom(ATOMS[k[0][0]]), of_atom(ATOMS[k[1][0]]), size)))
                continue
        out = add(out, mul(s, op('sum', p, axis=False, nonneg=is_nonneg(p))))
    return out


def absdot(self, x, size):
    """sum x**2; abs(z)**2 is z*conj(z)"""
    a = the_atom(x)
    if a is not None and a.kind == 'op' and a.args[0] == 'abs':
        z = a.args[1]
        return dot(z, conj(z), size)
    # products of abs: |u|*|v| = |u v|
    y = ONE
    allabs = bool(x.terms)
    for m, c in x.terms.items():
        for at, e in m:
            at = ATOMS[at]
            if at.kind == 'op' and at.args[0] == 'abs':
                y = mul(y, power(at.args[1], e))
            elif (at.info or {}).get('nonneg') or (at.info or {}).get('pos') or v_real(of_atom(at)):
                y = mul(y, power(of_atom(at), e))
            else:
                allabs = False
    if allabs and len(x.terms) == 1:
        y = mul(y, num(next(iter(x.terms.values()))))
        return dot(y, conj(y), size)
    return dot(x, x, size)


def concat(self, I, st, parts, axis):
    xs = [self.asarr(st, p) for p in parts]
    xs = [(((ONE,),), {(0,): c[()]}) if s == () else (s, c) for s, c in xs]
    if any(s is None for s, c in xs) or len({len(s) for s, c in xs}) != 1:
        return self.unkarr(I, st, [v for s, c in xs for v in c.values()])
    nd = len(xs[0][0])
    axis %= nd
    segs = ()
    data = {}
    rest = xs[0][0]
    for s, c in xs:
        if s[:axis] + s[axis + 1:] != rest[:axis] + rest[axis + 1:]:
            return self.unkarr(I, st, [v for s, c in xs for v in c.values()])
        for p, v in c.items():
            data[p[:axis] + (p[axis] + len(segs),) + p[axis + 1:]] = v
        segs += s[axis]
    return self.mkarr(st, rest[:axis] + (segs,) + rest[axis + 1:], data)


def stack(self, I, st, parts, axis):
    xs = [self.asarr(st, p) for p in parts]
    if any(s is None for s, c in xs) or len({s for s, c in xs}) != 1:
        return self.unkarr(I, st, [v for s, c in xs for v in c.values()])
    s0 = xs[0][0]
    axis %= len(s0) + 1
    data = {}
    for i, (s, c) in enumerate(xs):
        for p, v in c.items():
            data[p[:axis] + (i,) + p[axis:]] = v
    return self.mkarr(st, s0[:axis] + ((ONE,) * len(xs),) + s0[axis:], data)


def lusolve(self, I, st, LU, b):
    """solve with a factorised matrix; LU: Poly op('lu', A)"""
    st.event('lusolve', I.site())
    if isinstance(LU, Arr):
        LU = self.truthcell(I, st, LU)
    s, c = self.asarr(st, b)
    A = None
    at = the_atom(LU) if isinstance(LU, Poly) else None
    if at is not None and at.kind == 'op' and at.args[0] == 'lu':
        A = at.args[1]
    if s is None or len(s) not in (1, 2) or len(c) != 1 and len(s) == 1:
        if at is None:
            return self.unkarr(I, st, self.deps(st, [LU, b]))
        return self.unkarr(I, st, [LU] + list(c.values()))
    data = {}
    for p, v in c.items():
        v = self.topoly(v)
        if A is EYE:
            data[p] = v
        elif not v.terms:
            data[p] = ZERO
        else:
            data[p] = op('solve', LU if isinstance(LU, Poly) else I.unk('LU'), v, axis=True)
    return self.mkarr(st, s, data)


def reshape(self, I, st, a, name, args, kw):
    s, c = self.asarr(st, a)
    order = kw.get('order', 'C')
    if name in ('flatten', 'ravel'):
        if args and isinstance(args[0], str):
            order = args[0]
        if s is None:
            return self.unkarr(I, st, list(c.values()), alias=frozenset([a.b]) if name == 'ravel' else frozenset())
        if len(s) == 1:
            if name == 'ravel':
                return a
            return self.mkarr(st, s, dict(c))
        if len(s) == 2:
            big = [x for x in s if not all(z is ONE for z in x)]
            if len(c) == 1:
                (p, v), = c.items()
                v = self.topoly(v)
                one_ = [x for x in s if x == (ONE,)]
                if one_:
                    r = v
                else:
                    at = the_atom(v)
                    if at is not None and at.kind == 'op' and at.args[0] == 'unvec' and at.args[1] == order:
                        r = at.args[2]
                    else:
                        r = self.vec(v, order)
                return self.mkarr(st, ((mul(self.total(s[0]), self.total(s[1])),),), {(0,): r}, orig=st.o(a.b).meta['orig'] if name == 'ravel' else frozenset(),
                                  alias=frozenset([a.b]) if name == 'ravel' else frozenset())
            if all(z is ONE for x in s for z in x):
                n0, n1 = len(s[0]), len(s[1])
                seq = [(i, j) for i in range(n0) for j in range(n1)] if order == 'C' else \
                    [(i, j) for j in range(n1) for i in range(n0)]
                return self.mkarr(st, ((ONE,) * (n0 * n1),), {(q,): c[p] for q, p in enumerate(seq)})
        return self.unkarr(I, st, list(c.values()))
    shp = args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args)
    if s is None or not all(isinstance(x, Poly) for x in shp):
        return self.unkarr(I, st, list(c.values()), alias=frozenset([a.b]))
    tot = ONE
    for x in s:
        tot = mul(tot, self.total(x))
    if any(x.const == -1 for x in shp):
        rest = ONE
        for x in shp:
            if x.const != -1:
                rest = mul(rest, x)
        shp = tuple(div(tot, rest) if x.const == -1 else x for x in shp)
    if len(shp) == 1 and len(s) == 2:
        return self.reshape(I, st, a, 'ravel', (), {'order': order})
    if len(shp) == len(s) and all(self.total(x) is y for x, y in zip(s, shp)):
        return a
    if len(s) == 1 and len(shp) == 2:
        if shp[1] is ONE:
            return Arr(a.b, a.axes + ((-1, (0,)),), a.fixed)
        if shp[0] is ONE:
            return Arr(a.b, ((-1, (0,)),) + a.axes, a.fixed)
        if len(c) == 1 and mul(*shp) is tot:
            v = self.topoly(next(iter(c.values())))
            r = self.unvec(v, order)
            sz = tuple(self.axis_of(x) for x in shp)
            if all(len(x) == 1 for x in sz):
                return self.mkarr(st, sz, {(0, 0): r}, orig=st.o(a.b).meta['orig'], alias=frozenset([a.b]))
        if len(c) > 1 and mul(*shp) is tot and all(z is ONE for z in s[0]):
            sz = tuple(self.axis_of(x) for x in shp)
            if all(z is ONE for x in sz for z in x):
                n0, n1 = len(sz[0]), len(sz[1])
                data = {}
                for i in range(n0):
                    for j in range(n1):
                        data[(i, j)] = c[(i * n1 + j,)] if order == 'C' else c[(j * n0 + i,)]
                return self.mkarr(st, sz, data)
    return self.unkarr(I, st, list(c.values()), alias=frozenset([a.b]))


def lin_over(v, f):
    """apply a linear operator to a polynomial with scalar coefficients"""
    from .arr import split_scalar
    out = ZERO
    for m, c in v.terms.items():
        s, r = split_scalar(m)
        out = add(out, mul(mul(num(c), s), f(mk({r: Fr(1)}))))
    return out


def vec(self, v, order):
    def f(x):
        a = the_atom(x)
        if a is not None and a.kind == 'op' and a.args[0] == 'unvec' and a.args[1] == order:
            return a.args[2]
        return op('vec', order, x, axis=True)
    return lin_over(v, f)


def unvec(self, v, order):
    def f(x):
        a = the_atom(x)
        if a is not None and a.kind == 'op' and a.args[0] == 'vec' and a.args[1] == order:
            return a.args[2]
        return op('unvec', order, x, axis=True, matrix=True)
    return lin_over(v, f)


for _n in ('make_builtins', 'isinst', 'minmax', 'allany', 'reduce_', 'sumseg', 'absdot', 'concat', 'stack', 'lusolve',
           'reshape', 'vec', 'unvec'):
    setattr(Lib, _n, globals()[_n])

from . import libnp      # noqa: E402,F401
