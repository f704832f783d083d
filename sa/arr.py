"""Array model: buffers with segmented axes, views, broadcasting, contraction."""
from itertools import product
from .poly import *
from .poly import _muc
from .interp import Arr, Ref, Slice_, HO, Typ, Builtin, Bound, Exc

IMAG = sym('1j', real=False)
EYE = sym('I', matrix=True, axis=True)
REDUCERS = {'dot', 'l2', 'sum', 'amin', 'amax', 'svdmin', 'rank', 'normF', 'size', 'len', 'allc'}

_axmemo = {}


def axis_atom(a):
    r = _axmemo.get(a.id)
    if r is None:
        _axmemo[a.id] = False
        i = a.info or {}
        if 'axis' in i:
            r = bool(i['axis'])
        elif a.kind in ('sym', 'mu'):
            r = False
        elif a.kind == 'app':
            r = True
        elif a.kind == 'op' and a.args[0] in REDUCERS:
            r = False
        else:
            r = any(axisv(x) for x in a.args)
        if a.kind not in ('sym', 'mu'):
            _axmemo[a.id] = r
        else:
            del _axmemo[a.id]
    return r


def axisv(x):
    if isinstance(x, Poly):
        return any(axis_atom(a) for a in poly_atoms(x))
    if isinstance(x, Cond):
        if x.kind == 'all':
            return False
        return any(axisv(y) for y in x.fargs)
    if isinstance(x, tuple):
        return any(axisv(y) for y in x)
    return False


def is_matrix_atom(a):
    return bool(a.info and a.info.get('matrix'))


def outer_matrix(v):
    """a matrix occurs in the value other than inside a function application"""
    return any(is_matrix_atom(a) or a.kind == 'ite' and any(isinstance(x, Poly) and outer_matrix(x) for x in a.args[1:])
               for a in poly_atoms(v))


def split_scalar(m):
    """monomial -> (scalar part poly, rest monomial tuple)"""
    s, r = [], []
    for a, e in m:
        (r if axis_atom(ATOMS[a]) else s).append((a, e))
    return mk({tuple(s): Fr(1)}), tuple(r)


def mm(X, Y):
    """matrix X times (matrix or vector) Y; linear in both arguments"""
    out = ZERO
    for m, c in X.terms.items():
        s, r = split_scalar(m)
        if len(r) != 1 or r[0][1] != 1:
            out = add(out, mul(mul(num(c), s), mm_atom(mk({r: Fr(1)}), Y)))
            continue
        A = ATOMS[r[0][0]]
        t = ZERO
        for m2, c2 in Y.terms.items():
            s2, r2 = split_scalar(m2)
            y = mk({r2: Fr(1)})
            t = add(t, mul(mul(num(c2), s2), mm1(A, y)))
        out = add(out, mul(mul(num(c), s), t))
    return out


def mm1(A, y):
    if of_atom(A) is EYE:
        return y
    b = the_atom(y)
    if b is not None and of_atom(b) is EYE:
        return of_atom(A)
    if A.kind == 'op' and A.args[0] == 'mm':
        return mm(A.args[1], mm(A.args[2], y))
    return mm_atom(of_atom(A), y)


def mm_atom(X, y):
    r = op('mm', X, y)
    a = the_atom(r)
    a.info['axis'] = True
    if any(is_matrix_atom(b) for b in poly_atoms(y)):
        a.info['matrix'] = True
    if len(y.terms) == 1 and is_matrix_poly(X) and is_matrix_poly(y):
        a.info['matrix'] = True
    return r


def is_matrix_poly(p):
    return any(is_matrix_atom(a) for a in poly_atoms(p))


def transpose(X):
    out = ZERO
    for m, c in X.terms.items():
        s, r = split_scalar(m)
        if len(r) != 1 or r[0][1] != 1:
            t = op('T', mk({r: Fr(1)}), axis=True, matrix=True)
        else:
            A = ATOMS[r[0][0]]
            if of_atom(A) is EYE or (A.info and A.info.get('symm')):
                t = of_atom(A)
            elif A.kind == 'op' and A.args[0] == 'T':
                t = A.args[1]
            elif A.kind == 'op' and A.args[0] == 'mm' and is_matrix_atom(A):
                t = mm(transpose(A.args[2]), transpose(A.args[1]))
            else:
                t = op('T', of_atom(A), axis=True, matrix=True)
        out = add(out, mul(mul(num(c), s), t))
    return out


def dot(x, y, size):
    """sum over a symbolic segment of x*y (elementwise generic elements)"""
    if not x.terms or not y.terms:
        return ZERO
    # pull scalar factors out of single term operands
    pre = ONE
    xs = []
    for p in (x, y):
        if len(p.terms) == 1:
            (m, c), = p.terms.items()
            s, r = split_scalar(m)
            pre = mul(pre, mul(num(c), s))
            p = mk({r: Fr(1)})
        xs.append(p)
    x, y = xs
    if not axisv(x) and not axisv(y):
        return mul(pre, mul(mul(x, y), size))
    # canonical order and canonical form of x*conj(x)
    a, b = sorted((x, y), key=lambda p: p.id)
    if x is y and all(a_real(q) for q in poly_atoms(x)) or conj(x) is y:
        r = op('dot', a, b, size, nonneg=True, axis=False)
    else:
        r = op('dot', a, b, size, axis=False)
    return mul(pre, r)


_real = [True]


def a_real(a):
    """is the value real"""
    if _real[0]:
        return of_atom(a) is not IMAG
    i = a.info or {}
    if 'real' in i:
        return bool(i['real'])
    if a.kind == 'op' and a.args[0] in ('abs', 'real', 'imag', 'npmax', 'npmin', 'max', 'min', 'l2', 'normF', 'sign',
                                        'nextafter', 'floor', 'log10', 'size'):
        return True
    if i.get('nonneg') or i.get('pos') or i.get('sign'):
        return True
    if a.kind in ('sym', 'mu'):
        return not i.get('axis')
    if a.kind == 'app':
        return False
    if a.kind in ('op', 'ite'):
        return all(v_real(x) for x in a.args)
    return True


def v_real(x):
    if isinstance(x, Poly):
        c = x.cache.get(('real', _real[0]))
        if c is None:
            x.cache[('real', _real[0])] = True
            c = all(a_real(a) for a in poly_atoms(x))
            x.cache[('real', _real[0])] = c
        return c
    if isinstance(x, tuple):
        return all(v_real(y) for y in x)
    return True


def conj(p):
    if v_real(p):
        return p
    out = ZERO
    for m, c in p.terms.items():
        t = num(c)
        for a, e in m:
            at = ATOMS[a]
            base = of_atom(at)
            if a_real(at):
                t = mul(t, power(base, Fr(e)))
            elif base is IMAG:
                t = mul(t, power(neg(IMAG), Fr(e)))
            elif at.kind == 'op' and at.args[0] == 'conj':
                t = mul(t, power(at.args[1], Fr(e)))
            else:
                t = mul(t, power(op('conj', base), Fr(e)))
        out = add(out, t)
    return out


def split_real(p, name):
    """real or imaginary part with real factors pulled out"""
    if v_real(p):
        return p if name == 'real' else ZERO
    out = ZERO
    for m, c in p.terms.items():
        t = num(c)
        rest = ONE
        for a, e in m:
            at = ATOMS[a]
            if a_real(at):
                t = mul(t, power(of_atom(at), Fr(e)))
            else:
                rest = mul(rest, power(of_atom(at), Fr(e)))
        if rest is ONE:
            out = add(out, t) if name == 'real' else out
        elif the_atom(rest) is not None and the_atom(rest).kind == 'op' and the_atom(rest).args[0] == 'dot' and \
                (the_atom(rest).info or {}).get('nonneg'):
            out = add(out, mul(t, rest)) if name == 'real' else out
        elif rest is IMAG:
            out = out if name == 'real' else add(out, t)
        else:
            out = add(out, mul(t, op(name, rest, real=True)))
    return out


# ---------------------------------------------------------------- structure
def positions(sizes):
    return product(*[range(len(s)) for s in sizes])


class ArrOps:
    """mixin with array primitives"""

    segorder = ()
    split2 = {}          # size poly -> tuple of segments

    def axis_of(self, size):
        """segmentation of a fresh axis of given length; None unknown"""
        if size is None:
            return None
        if isinstance(size, tuple):
            return size
        c = size.const
        if c is not None:
            if c != int(c) or c < 0 or c > 400:
                return (size,)
            return (ONE,) * int(c)
        if size in self.split2:
            return self.split2[size]
        if any(m and any(not isinstance(e, int) for a, e in m) for m in size.terms):
            return (size,)
        if any(c.denominator != 1 or c < 0 for c in size.terms.values()):
            return (size,)
        if any(ATOMS[a].kind != 'sym' for m in size.terms for a, e in m):
            return (size,)
        segs = []

        def rank(m):
            p = mk({m: Fr(1)})
            return self.segorder.index(p) if p in self.segorder else (len(self.segorder) + (1 if m == () else 0))
        for m, c in sorted(size.terms.items(), key=lambda x: rank(x[0])):
            p = mk({m: Fr(1)})
            if c > 50:
                return (size,)
            segs += list(self.split2.get(p, (p,))) * int(c)
        return tuple(segs)

    def sizes(self, st, a):
        ax = st.o(a.b).meta['axes']
        return tuple((ONE,) if d == -1 else tuple(ax[d][s] for s in segs) for d, segs in a.axes)

    def bufidx(self, a, pos, nd):
        idx = [None] * nd
        for d, s in a.fixed:
            idx[d] = s
        for (d, segs), p in zip(a.axes, pos):
            if d != -1:
                idx[d] = segs[p]
        return tuple(idx)

    def cells(self, st, a):
        o = st.o(a.b)
        if a.axes is None:
            return dict(o.d)
        nd = len(o.meta['axes'])
        d = o.d
        return {pos: d[self.bufidx(a, pos, nd)] for pos in product(*[range(len(s)) for _, s in a.axes])}

    def mkarr(self, st, sizes, data, orig=frozenset(), alias=frozenset(), **meta):
        b = st.new('buf', data, dict(meta, axes=tuple(sizes), orig=orig, alias=alias))
        return Arr(b, tuple((i, tuple(range(len(s)))) for i, s in enumerate(sizes)), ())

    def fullarr(self, st, sizes, v, **meta):
        return self.mkarr(st, sizes, {p: v for p in positions(sizes)}, **meta)

    def unkarr(self, I, st, cells, orig=frozenset(), alias=frozenset()):
        deps = []
        for c in cells:
            if isinstance(c, (Poly, Cond)):
                deps.append(c)
        if len(deps) == 1 and isinstance(deps[0], Poly):
            v = deps[0]
        else:
            v = mu('?arr', deps, unk=True, axis=True)
        b = st.new('buf', {'*': v}, {'axes': None, 'orig': orig, 'alias': alias})
        return Arr(b, None, ())

    def ndim(self, a):
        return None if a.axes is None else len(a.axes)

    def asarr(self, st, v):
        """(sizes, cells) of an operand; sizes () for scalars, None unknown"""
        if isinstance(v, Arr):
            if v.axes is None:
                return None, st.o(v.b).d
            return self.sizes(st, v), self.cells(st, v)
        if isinstance(v, (Poly, bool, Cond)):
            return (), {(): v}
        if isinstance(v, (tuple, list)) or (isinstance(v, Ref) and st.o(v.a).kind in ('list',)):
            return self.nested(st, v)
        return None, {'*': self.topoly(v)}

    def nested(self, st, v):
        items = v
        if isinstance(v, Ref):
            o = st.o(v.a)
            if o.meta.get('unklen'):
                return None, {'*': mu('?list', [x for x in o.d if isinstance(x, Poly)], axis=True, unk=True)}
            items = o.d
        subs = [self.asarr(st, x) for x in items]
        if not subs:
            return ((),), {}
        if any(s[0] is None or s[0] != subs[0][0] for s in subs):
            return None, {'*': mu('?nested', [c for s in subs for c in s[1].values() if isinstance(c, Poly)], axis=True, unk=True)}
        data = {}
        for i, (s, c) in enumerate(subs):
            for p, x in c.items():
                data[(i,) + p] = x
        rep = st.o(v.a).meta.get('rep') if isinstance(v, Ref) else None
        if rep is not None and len(subs) == 1:
            return ((rep,),) + subs[0][0], data        # one generic element stands for all
        return ((ONE,) * len(subs),) + subs[0][0], data

    def toarr(self, st, v, **meta):
        if isinstance(v, Arr):
            return v
        s, c = self.asarr(st, v)
        if s is None:
            return self.unkarr(None, st, list(c.values()))
        return self.mkarr(st, s, c, **meta)

    def scal(self, st, sizes, data, **meta):
        """result of an operation: 0-d results are scalars"""
        if sizes == ():
            return data[()]
        return self.mkarr(st, sizes, data, **meta)

    def bcast(self, s1, s2):
        """broadcast two size tuples -> sizes or None (unknown)"""
        n = max(len(s1), len(s2))
        s1 = ((ONE,),) * (n - len(s1)) + tuple(s1)
        s2 = ((ONE,),) * (n - len(s2)) + tuple(s2)
        out = []
        for a, b in zip(s1, s2):
            if a == b:
                out.append(a)
            elif a == (ONE,):
                out.append(b)
            elif b == (ONE,):
                out.append(a)
            elif len(a) == len(b) == 1:
                out.append(a if a[0].id < b[0].id else b)     # symbolic sizes assumed compatible
            elif len(a) == 1 and a[0].const is None:
                out.append(b)
            elif len(b) == 1 and b[0].const is None:
                out.append(a)
            else:
                return None
        return tuple(out)

    def pick(self, sizes, cells, out, pos):
        k = len(out) - len(sizes)
        p = tuple(0 if len(s) == 1 else q for s, q in zip(sizes, pos[k:]))
        return cells[p]

    def emap(self, I, st, f, *args, **meta):
        """elementwise application with broadcasting"""
        if all(isinstance(a, (Poly, bool, Cond)) for a in args):
            return f(*args)
        xs = [self.asarr(st, a) for a in args]
        if any(s is None for s, c in xs):
            vals = []
            known = [s for s, c in xs if s is not None and s != ()]
            for s, c in xs:
                vs = list(c.values())
                if len(vs) == 1:
                    vals.append(vs[0])
                else:
                    vals.append(mu('?e', [x for x in vs if isinstance(x, (Poly, Cond))], axis=True, unk=True))
            r = f(*vals)
            if known and len(known[0]) >= 1 and False:
                pass
            b = st.new('buf', {'*': r}, {'axes': None, 'orig': frozenset(), 'alias': frozenset()})
            return Arr(b, None, ())
        out = ()
        for s, c in xs:
            out = self.bcast(out, s)
            if out is None:
                I.note('broadcast of unrelated shapes')
                return self.unkarr(I, st, [v for s, c in xs for v in c.values()])
        data = {}
        for pos in positions(out):
            data[pos] = f(*[self.pick(s, c, out, pos) for s, c in xs])
        if out == ():
            return data[()]
        sp = any(isinstance(a, Arr) and st.o(a.b).meta.get('sparse') for a in args)
        if sp and len(out) == 2:
            meta['sparse'] = True
        return self.mkarr(st, out, data, **meta)

    # ------------------------------------------------------------ indexing
    def seg_find(self, segs, pos):
        """index of the segment boundary at symbolic position pos (a Poly)"""
        s = ZERO
        for i in range(len(segs) + 1):
            if s is pos:
                return i
            if i < len(segs):
                s = add(s, segs[i])
        return None

    def total(self, segs):
        s = ZERO
        for x in segs:
            s = add(s, x)
        return s

    def norm_pos(self, segs, p):
        c = p.const
        if c is not None and c < 0:
            return add(self.total(segs), p)
        if c is None:
            l = p.terms.get((), None)
            # -n style
            if all(v < 0 for v in p.terms.values()):
                return add(self.total(segs), p)
        return p

    def slice_segs(self, segs, sl):
        """list of segment indices or None; ('part', size) for summary part"""
        tot = self.total(segs)
        step = sl.c
        stepc = 1
        if step is not None:
            stepc = step.const if isinstance(step, Poly) else None
            if stepc is None:
                return None
        allint = all(s is ONE for s in segs)
        if stepc > 0:
            a = ZERO if sl.a is None else self.norm_pos(segs, sl.a)
            b = tot if sl.b is None else self.norm_pos(segs, sl.b)
        else:
            a = add(tot, num(-1)) if sl.a is None else self.norm_pos(segs, sl.a)
            b = num(-1) if sl.b is None else self.norm_pos(segs, sl.b)
        if allint:
            ca, cb = a.const, b.const
            if ca is None or cb is None:
                return None
            n = len(segs)
            if stepc > 0:
                r = range(min(max(int(ca), 0), n), min(max(int(cb), 0), n), int(stepc))
            else:
                ca = int(ca)
                cb = int(cb)
                r = range(min(max(ca, -1), n - 1), min(max(cb, -1), n - 1) if cb >= 0 else -1, int(stepc))
            return list(r)
        if stepc == 1:
            i, j = self.seg_find(segs, a), self.seg_find(segs, b)
            if i is not None and j is not None:
                return list(range(i, max(i, j)))
        if stepc == -1 and sl.a is None and sl.b is None and len(segs) == 1:
            return [0]
        return None

    def expand_index(self, I, st, a, idx):
        """-> list of (kind, value) per view axis with newaxis entries"""
        if not isinstance(idx, tuple):
            idx = (idx,)
        n = sum(1 for i in idx if i is not None and i is not Ellipsis)
        out = []
        seen = False
        for i in idx:
            if i is Ellipsis and not seen:
                seen = True
                out += [Slice_(None, None, None)] * (len(a.axes) - n)
            else:
                out.append(i)
        m = sum(1 for i in out if i is not None)
        out += [Slice_(None, None, None)] * (len(a.axes) - m)
        return out

    def view(self, I, st, a, idx):
        """-> ('view', Arr) | ('summary', info) | ('fancy', ...) | None"""
        ax = st.o(a.b).meta['axes']
        full = self.expand_index(I, st, a, idx)
        axes, fixed = [], list(a.fixed)
        k = 0
        summ = []
        for i in full:
            if i is None:
                axes.append((-1, (0,)))
                continue
            if k >= len(a.axes):
                return None
            d, segs = a.axes[k]
            sizes = [ONE] if d == -1 else [ax[d][s] for s in segs]
            if isinstance(i, (bool, Cond)):
                return None
            if isinstance(i, Slice_):
                ss = None
                if i.a is None and i.b is None and i.c is None:
                    ss = list(range(len(sizes)))
                else:
                    ss = self.slice_segs(sizes, i)
                if ss is None:
                    summ.append((k, 'slice', i, sizes))
                    axes.append(('S', k))
                else:
                    axes.append((d, tuple(segs[x] for x in ss)) if d != -1 else
                                ((-1, (0,)) if ss else (-1, ())))
            elif isinstance(i, Poly):
                j = self.norm_pos(sizes, i)
                s = self.seg_find(sizes, j)
                if s is not None and s < len(sizes) and sizes[s] is ONE:
                    if d != -1:
                        fixed.append((d, segs[s]))
                elif all(x is ONE for x in sizes) and j.const is not None:
                    return ('err',)
                else:
                    summ.append((k, 'int', i, sizes))
                    axes.append(('I', k))
            else:
                return ('fancy', full)
            k += 1
        if summ:
            return ('summary', full, summ)
        return ('view', Arr(a.b, tuple(axes), tuple(sorted(fixed))))

    def bufs(self, st, b):
        """transitive set of buffers a write to b may reach"""
        out, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            o = st.heap.get(x)
            if o is not None:
                todo += list(o.meta.get('alias', ()))
        return frozenset(out)

    def origs(self, st, b):
        r = frozenset()
        for x in self.bufs(st, b):
            o = st.heap.get(x)
            if o is not None:
                r |= o.meta.get('orig', frozenset())
        return r

    def wevent(self, I, st, a, what):
        st.event('write', self.bufs(st, a.b), self.origs(st, a.b), I.site(), what)

    def weak(self, st, b, v, seen=None):
        """weak update of a whole buffer"""
        vs = v if isinstance(v, (list, tuple)) else [v]
        o = st.w(b)
        for k, x in list(o.d.items()):
            new = [y for y in vs if y is not x]
            if not new:
                continue
            at = the_atom(x) if isinstance(x, Poly) else None
            if all(isinstance(y, (bool, Cond)) for y in new) and isinstance(x, (bool, Cond)):
                _muc[0] += 1
                o.d[k] = cond('opq', _muc[0], tuple(y for y in new + [x] if isinstance(y, Cond)))
                continue
            if at is not None and at.kind == 'mu' and at.info.get('weakcell') and \
                    all(y in MU_SOURCES[at.id] or at in walk(y) for y in new):
                for y in new:
                    MU_SOURCES[at.id].add(y)
                continue
            o.d[k] = mu('cell', [self.topoly(y) for y in new] + [self.topoly(x)], weakcell=True,
                        axis=axisv(x) or any(axisv(y) for y in new), nan=True)

    def getitem_arr(self, I, st, a, idx):
        if a.axes is None:
            return self.sub_unknown(I, st, a, idx)
        if isinstance(idx, Arr) or (isinstance(idx, Ref) and st.o(idx.a).kind == 'list'):
            idx = (idx,)
        v = self.view(I, st, a, idx)
        if v is None:
            return self.sub_unknown(I, st, a, idx)
        if v[0] == 'view':
            r = v[1]
            if r.axes == ():
                return self.cells(st, r)[()]
            return r
        if v[0] == 'err':
            I.raise_(Exc('IndexError', ()), st.fork())
            return I.unk('index')
        if v[0] == 'fancy':
            return self.fancy(I, st, a, v[1])
        return self.summary(I, st, a, v[1], v[2])

    def sub_unknown(self, I, st, a, idx):
        cells = [c for c in self.asarr(st, a)[1].values()]
        ix = idx if isinstance(idx, tuple) else (idx,)
        if a.axes is not None and len(ix) >= len(a.axes) and all(isinstance(i, Poly) for i in ix):
            return mu('?elt', [c for c in cells if isinstance(c, Poly)], unk=True)
        return self.unkarr(I, st, cells, orig=st.o(a.b).meta['orig'], alias=frozenset([a.b]))

    def fancy(self, I, st, a, full):
        """integer-list indexing along one axis"""
        ax = [(k, i) for k, i in enumerate([x for x in full if x is not None])
              if not isinstance(i, (Slice_, Poly))]
        sizes = self.sizes(st, a)
        cells = self.cells(st, a)
        if len(ax) == 1 and None not in full:
            k, i = ax[0]
            s, c = self.asarr(st, i)
            vals = list(c.values()) if s is not None else []
            if s is not None and len(s) == 1 and all(isinstance(x, Poly) and x.const is not None for x in vals) and \
                    all(z is ONE for z in sizes[k]):
                n = len(sizes[k])
                ids = [int(c[(j,)].const) % n for j in range(len(s[0]))]
                ns = sizes[:k] + ((ONE,) * len(ids),) + sizes[k + 1:]
                data = {p: cells[p[:k] + (ids[p[k]],) + p[k + 1:]] for p in positions(ns)}
                r = self.mkarr(st, ns, data)
                rest = tuple(Slice_(None, None, None) if j == k else x for j, x in enumerate(full))
                return self.getitem_arr(I, st, r, rest)
        return self.unkarr(I, st, list(cells.values()))

    def summary(self, I, st, a, full, summ):
        """reading part of a symbolic segment (or symbolic index of integer axis): copy with alias"""
        sizes = self.sizes(st, a)
        cells = self.cells(st, a)
        sk = {k: (kind, i, s) for k, kind, i, s in summ}
        # per axis: list of (new size segs, mapping to old positions or 'join')
        out_sizes = []
        maps = []
        k = 0
        for i in full:
            if i is None:
                out_sizes.append((ONE,))
                maps.append(None)
                continue
            segs = sizes[k]
            if k in sk:
                kind, ix, s = sk[k]
                if kind == 'int':
                    maps.append(('join', k, ix, False))
                else:
                    A = ZERO if ix.a is None else self.norm_pos(segs, ix.a)
                    B = self.total(segs) if ix.b is None else self.norm_pos(segs, ix.b)
                    rev = ix.c is not None and ix.c.const is not None and ix.c.const < 0
                    if rev:
                        hi = add(self.total(segs), num(-1)) if ix.a is None else A
                        lo = num(-1) if ix.b is None else B
                        size = add(hi, neg(lo))
                    else:
                        size = add(B, neg(A))
                    out_sizes.append((size,))
                    maps.append(('join', k, A, True))
            elif isinstance(i, Poly):
                j = self.seg_find(segs, self.norm_pos(segs, i))
                maps.append(('fix', k, j))
            else:
                ss = list(range(len(segs))) if (i.a is None and i.b is None and i.c is None) else self.slice_segs(segs, i)
                out_sizes.append(tuple(segs[x] for x in ss))
                maps.append(('seg', k, ss))
            k += 1
        data = {}
        scalar_axes = len(out_sizes) == 0
        for pos in positions(out_sizes):
            it = iter(pos)
            sel = []
            tags = []
            for m in maps:
                if m is None:
                    next(it)
                elif m[0] == 'join':
                    sel.append(range(len(sizes[m[1]])))
                    tags.append(m[2])
                    if m[3]:
                        next(it)
                elif m[0] == 'fix':
                    sel.append([m[2]])
                else:
                    sel.append([m[2][next(it)]])
            cs = [cells[p] for p in product(*sel)]
            data[pos] = self.joincells(cs, tuple(tags), keep=any(m and m[0] == 'seg' and
                                       any(sizes[m[1]][x] is not ONE for x in m[2]) for m in maps)
                                       or any(m and m[0] == 'join' and m[3] for m in maps))
        if scalar_axes:
            return data[()]
        return self.mkarr(st, out_sizes, data, orig=st.o(a.b).meta['orig'], alias=frozenset([a.b]), summary=True)

    def joincells(self, cs, tags, keep):
        cs = list(dict.fromkeys(cs))
        if len(cs) == 1:
            c = cs[0]
            if isinstance(c, Poly):
                if not axisv(c):
                    return c
                return op('elt', c, tags, axis=keep, nonneg=is_nonneg(c))
            return c
        if all(isinstance(c, Poly) for c in cs):
            r = op('elt', tuple(cs), tags, axis=keep or any(axisv(c) for c in cs), nonneg=all(is_nonneg(c) for c in cs))
            if all(c.const is not None for c in cs):
                i = the_atom(r).info
                i['lo'], i['hi'] = float(min(c.const for c in cs)), float(max(c.const for c in cs))
                i['nan'] = False
            return r
        return mu('?j', [c for c in cs if isinstance(c, Poly)], unk=True, axis=keep)

    def setitem_arr(self, I, st, a, idx, v):
        self.wevent(I, st, a, 'item')
        if a.axes is None:
            self.weak(st, a.b, [c for c in self.asarr(st, v)[1].values()])
            self.propagate(st, a, v)
            return
        w = self.view(I, st, a, idx) if not isinstance(idx, Arr) else None
        if w is None or w[0] in ('fancy', 'summary', 'err'):
            if isinstance(idx, Arr) and w is None:
                s, c = self.asarr(st, idx)
                if s == self.sizes(st, a) and all(isinstance(x, (bool, Cond)) for x in c.values()):
                    self.store(I, st, a, self.emap(I, st, lambda m, x, o: ite_(self, m, x, o), idx, v, a))
                    return
            vals = [c for c in self.asarr(st, v)[1].values()]
            if w is not None and w[0] == 'summary':
                # only the cells selected by the exactly resolved axes
                self.weak_part(I, st, a, w[1], w[2], v)
            else:
                self.weak(st, a.b, vals)
            self.propagate(st, a, v)
            return
        self.store(I, st, w[1], v)
        self.propagate(st, a, v)

    def weak_part(self, I, st, a, full, summ, v):
        sizes = self.sizes(st, a)
        sk = {k for k, *_ in summ}
        sel = []
        k = 0
        for i in full:
            if i is None:
                continue
            if k in sk:
                sel.append(range(len(sizes[k])))
            elif isinstance(i, Poly):
                sel.append([self.seg_find(sizes[k], self.norm_pos(sizes[k], i))])
            else:
                sel.append(list(range(len(sizes[k]))) if (i.a is None and i.b is None and i.c is None)
                           else self.slice_segs(sizes[k], i))
            k += 1
        o = st.w(a.b)
        nd = len(o.meta['axes'])
        vals = [self.topoly(c) for c in self.asarr(st, v)[1].values()]
        for pos in product(*sel):
            ix = self.bufidx(a, pos, nd)
            x = o.d[ix]
            new = [y for y in vals if y is not x]
            if not new:
                continue
            at = the_atom(x) if isinstance(x, Poly) else None
            if at is not None and at.kind == 'mu' and at.info.get('weakcell'):
                m = MU_SOURCES[at.id]
                if all(y in m for y in new):
                    continue
            whole = all(len(sizes[j]) == 1 for j in sk)
            o.d[ix] = mu('cell', new + [self.topoly(x)], weakcell=True,
                         axis=axisv(x) or any(axisv(y) for y in new) or any(s.const is None for s in sum(sizes, ())), nan=True)

    def propagate(self, st, a, v):
        for b in st.o(a.b).meta.get('alias', ()):
            for x in self.bufs(st, b):
                if x in st.heap:
                    self.weak(st, x, [c for c in self.asarr(st, v)[1].values()])

    def store(self, I, st, view, v):
        """exact store of v (broadcast) into a view"""
        sizes = self.sizes(st, view)
        s, c = self.asarr(st, v)
        o = st.w(view.b)
        nd = len(o.meta['axes'])
        if s is None:
            vals = list(c.values())
            for pos in positions(sizes):
                o.d[self.bufidx(view, pos, nd)] = vals[0] if len(vals) == 1 else mu('?s', [x for x in vals if isinstance(x, Poly)], axis=True, unk=True)
            return
        if len(s) > len(sizes):
            s2 = s
            while len(s2) > len(sizes) and s2[0] == (ONE,):
                s2 = s2[1:]
                c = {p[1:]: x for p, x in c.items()}
            s = s2
        out = self.bcast(sizes, s)
        if out is None or any(len(x) != len(y) for x, y in zip(out, sizes)) or len(out) != len(sizes):
            # not compatible
            I.note('store with incompatible shape')
            vals = [self.topoly(x) for x in c.values()]
            for pos in positions(sizes):
                o.d[self.bufidx(view, pos, nd)] = mu('?s', vals, axis=True, unk=True)
            return
        for pos in positions(sizes):
            o.d[self.bufidx(view, pos, nd)] = self.pick(s, c, out, pos)

    # ------------------------------------------------------------ contraction
    def matmul(self, I, st, a, b):
        if not isinstance(a, Arr):
            a = self.toarr(st, a)
        if not isinstance(b, Arr):
            b = self.toarr(st, b)
        sa, ca = self.asarr(st, a)
        sb, cb = self.asarr(st, b)
        if sa is None or sb is None or sa == () or sb == ():
            x = list(ca.values())
            y = list(cb.values())
            if len(x) == len(y) == 1 and isinstance(x[0], Poly) and isinstance(y[0], Poly):
                r = op('uprod', x[0], y[0], axis=True)
                b_ = st.new('buf', {'*': r}, {'axes': None, 'orig': frozenset(), 'alias': frozenset()})
                return Arr(b_, None, ())
            return self.unkarr(I, st, x + y)
        if len(sa) > 2 or len(sb) > 2:
            return self.unkarr(I, st, list(ca.values()) + list(cb.values()))
        ka, kb = sa[-1], sb[0]
        if ka != kb:
            if len(ka) == len(kb) == 1 and (ka[0].const is None or kb[0].const is None):
                pass
            else:
                I.note('contraction of unrelated axes')
                return self.unkarr(I, st, list(ca.values()) + list(cb.values()))
        oa = sa[:-1]
        ob = sb[1:]
        out = oa + ob
        data = {}
        for pos in positions(out):
            pa, pb = pos[:len(oa)], pos[len(oa):]
            t = ZERO
            for j, sz in enumerate(ka):
                x, y = ca[pa + (j,)], cb[(j,) + pb]
                x, y = self.topoly(x), self.topoly(y)
                if sz is ONE:
                    t = add(t, mul(x, y))
                elif sa[0][pa[0]] is not ONE if oa else False:
                    # matrix @ ...
                    if x.terms and y.terms:
                        t = add(t, mm(x, y))
                elif ob and sb[1][pb[0]] is not ONE:
                    # vector @ matrix
                    if x.terms and y.terms:
                        t = add(t, mm(transpose(y), x))
                else:
                    t = add(t, dot(x, y, sz))
            data[pos] = t
        return self.scal(st, out, data)

    def transpose_arr(self, st, a):
        if a.axes is None or len(a.axes) < 2:
            return a
        sizes = self.sizes(st, a)
        if len(a.axes) == 2 and any(x is not ONE for x in sizes[0]) and any(x is not ONE for x in sizes[1]):
            c = self.cells(st, a)
            data = {}
            for (i, j), v in c.items():
                si, sj = sizes[0][i] is not ONE, sizes[1][j] is not ONE
                same = sizes[0][i] is sizes[1][j] or isinstance(v, Poly) and outer_matrix(v)
                data[(j, i)] = transpose(v) if si and sj and same and isinstance(v, Poly) else v
            return self.mkarr(st, sizes[::-1], data, orig=st.o(a.b).meta['orig'], alias=frozenset([a.b]),
                              sparse=st.o(a.b).meta.get('sparse'))
        return Arr(a.b, tuple(reversed(a.axes)), a.fixed)


def ite_(lib, m, x, o):
    if isinstance(m, (bool, Cond)):
        return ite(m, lib.topoly(x), lib.topoly(o))
    return ite(c_cmp('!=', m, ZERO), lib.topoly(x), lib.topoly(o))
