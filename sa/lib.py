"""Model of Python builtins, numpy and scipy for the abstract interpreter."""
import os
import math
from itertools import product
from .poly import *
from .poly import _muc
from .interp import (Arr, Ref, Slice_, HO, Typ, Builtin, Bound, Exc, ExcT, ExtMod, Super, StarUnk, AnalysisError)
from .arr import ArrOps, IMAG, EYE, axisv, mm, dot, conj, split_real, transpose, positions, ite_, v_real
from . import arr as _arr

HERE = os.path.dirname(os.path.abspath(__file__))


class NotImpl:
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = NotImpl()


class Rng:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __eq__(self, o):
        return isinstance(o, Rng) and (o.a, o.b, o.s) == (self.a, self.b, self.s)

    def __hash__(self):
        return hash((self.a, self.b, self.s))


class Seq:
    """sequence of unknown length: kind enumerate / zip / items / reversed"""
    def __init__(self, kind, parts):
        self.kind, self.parts = kind, tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Seq) and (o.kind, o.parts) == (self.kind, self.parts)

    def __hash__(self):
        return hash((self.kind, self.parts))


class FInfo:
    tag = None

    def __init__(self, tag=None):
        self.tag = tag


class RObj:
    def __init__(self, name):
        self.name = name


class Opaque:
    """opaque object with named attributes (results of library functions)"""
    def __init__(self, name, attrs=None, val=None):
        self.name, self.attrs, self.val = name, attrs or {}, val


DT = Typ('dtype')
DTF = Typ('float64')
FI = FInfo()
EPS = sym('eps', pos=True, lo=1e-20, hi=1e-6)
EPSNEG = sym('epsneg', pos=True, lo=1e-20, hi=1e-6)
TINY = sym('tiny', pos=True, lo=1e-310, hi=1e-37, wild=True)
FMAX = sym('fmax', pos=True, lo=1e37, wild=True)
EXCS = ('ValueError', 'TypeError', 'AssertionError', 'RuntimeError', 'NotImplementedError', 'Exception', 'KeyError',
        'AttributeError', 'IndexError', 'ZeroDivisionError', 'OverflowError', 'FloatingPointError', 'Warning',
        'UserWarning', 'DeprecationWarning', 'RuntimeWarning', 'StopIteration', 'ArithmeticError', 'BaseException',
        'ImportError')


def one(v, st):
    return [(v, st)]


class Lib(ArrOps):
    IMAG = IMAG
    NOTIMPL = NOTIMPL
    DT = DT

    def __init__(self):
        self.funcs = {}
        self.builtins = {}
        self.stubs = {}
        self.isdtype_complex = False
        self.ext = {}          # overrides: (mod, name) -> value
        self.make_builtins()
        self.make_numpy()

    # ------------------------------------------------------------- modules
    def stub_file(self, mod):
        m = {'scipy.integrate._ivp.base': 'ivp_base.py', 'scipy.integrate._ivp.common': 'ivp_common.py'}.get(mod)
        return os.path.join(HERE, 'stubs', m) if m else None

    def extattr(self, I, st, mod, name):
        if (mod, name) in self.ext:
            return self.ext[(mod, name)]
        if mod == 'scipy.integrate' and name in ('OdeSolver', 'DenseOutput'):
            m = I.import_mod('scipy.integrate._ivp.base', st)
            return st.o(m.a).d[name]
        full = mod + '.' + name
        if full in ('numpy.linalg', 'scipy.linalg', 'scipy.sparse', 'scipy.sparse.linalg', 'numpy.lib', 'numpy.random',
                    'scipy.integrate', 'scipy.optimize', 'scipy.integrate._ivp', 'numpy.polynomial'):
            return ExtMod(full)
        top = mod.split('.')[0]
        if top in ('numpy', 'math', 'scipy', 'cmath'):
            key = name
            if mod.endswith('linalg') or top == 'scipy':
                key = {'norm': 'linalg.norm', 'solve': 'linalg.solve', 'inv': 'linalg.inv', 'svd': 'linalg.svd',
                       'matrix_rank': 'linalg.matrix_rank'}.get(name, name)
            if top == 'math' and name in ('fsum',):
                key = 'sum'
            f = self.funcs.get(key)
            if f is not None:
                return f
            if name in CONSTS:
                return CONSTS[name]
        if top == 'warnings' and name == 'warn':
            return Builtin('warn', lambda I, st, a, k: (st.event('warn', 'warn', I.site()), one(None, st))[1])
        if top == 'logging':
            return Builtin('logging.' + name, lambda I, st, a, k: (st.event('warn', 'log', I.site()), one(I.unk('logger') if name == 'getLogger' else None, st))[1])
        if name in EXCS:
            return ExcT(name)
        I.note(f'library function {full} not modelled')
        return self.unknown_fn(full)

    def unknown_fn(self, full):
        def f(I, st, args, kw):
            st.event('libcall', full, I.site())
            deps = self.deps(st, list(args) + list(kw.values()))
            return one(self.unkval(I, st, full, deps), st)
        return Builtin(full, f)

    def unkval(self, I, st, what, deps):
        m = mu('?' + what, deps, unk=True, nan=True, axis=True)
        b = st.new('buf', {'*': m}, {'axes': None, 'orig': frozenset(), 'alias': frozenset()})
        return Arr(b, None, ())

    def deps(self, st, vals):
        out = []
        for v in vals:
            if isinstance(v, (Poly, Cond)):
                out.append(v)
            elif isinstance(v, Arr):
                out += [c for c in self.asarr(st, v)[1].values() if isinstance(c, (Poly, Cond))]
            elif isinstance(v, (tuple, list)):
                out += self.deps(st, v)
            elif isinstance(v, Ref) and st.o(v.a).kind in ('list', 'dict', 'set'):
                d = st.o(v.a).d
                out += self.deps(st, list(d.values()) if isinstance(d, dict) else d)
        return out

    def builtin(self, name):
        return self.builtins.get(name)

    # ------------------------------------------------------------- scalars
    def topoly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, Cond):
            return ite(v, ONE, ZERO)
        if v is None:
            return sym('None')
        return mu('?val', (), unk=True)

    def tocond(self, p):
        if isinstance(p, (bool, Cond)):
            return p
        c = p.const
        if c is not None:
            return bool(c)
        a = the_atom(p)
        if a is not None and a.kind == 'ite':
            return c_ite(a.args[0], self.tocond(a.args[1]), self.tocond(a.args[2]))
        return c_cmp('!=', p, ZERO)

    def truthy(self, I, st, v):
        if isinstance(v, (bool, Cond)):
            return v
        if v is None:
            return False
        if isinstance(v, Poly):
            return self.tocond(v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Ref):
            o = st.o(v.a)
            if o.kind in ('list', 'set', 'dict'):
                if o.meta.get('unklen'):
                    _muc[0] += 1
                    return cond('opq', _muc[0])
                return len(o.d) > 0
            return True
        if isinstance(v, Arr):
            s, c = self.asarr(st, v)
            if s is not None and len(c) == 1 and all(len(x) == 1 and x[0] is ONE for x in s):
                return self.truthy(I, st, next(iter(c.values())))
            return cond('opqv', tuple(x for x in c.values()))
        return True

    def num2(self, I, st, v):
        """list/tuple operands of arithmetic with arrays"""
        if isinstance(v, (tuple,)) or isinstance(v, Ref) and st.o(v.a).kind == 'list':
            return self.toarr(st, v)
        return v

    def binop(self, I, st, opn, a, b):
        if isinstance(a, (str,)) or isinstance(b, str):
            if opn == 'Add' and isinstance(a, str) and isinstance(b, str):
                return a + b
            return '{}'
        la = isinstance(a, Ref) and st.o(a.a).kind == 'list'
        lb = isinstance(b, Ref) and st.o(b.a).kind == 'list'
        if opn == 'Add' and (la and lb):
            return Ref(st.new('list', list(st.o(a.a).d) + list(st.o(b.a).d)))
        if opn == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if opn == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Poly) and (isinstance(x, tuple) or isinstance(x, Ref) and st.o(x.a).kind == 'list'):
                    n = y.const
                    items = x if isinstance(x, tuple) else st.o(x.a).d
                    if n is not None:
                        r = list(items) * int(n)
                        return tuple(r) if isinstance(x, tuple) else Ref(st.new('list', r))
                    return Seq('repeat', (tuple(items), y))
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)) and opn in ('BitAnd', 'BitOr'):
            return c_and(a, b) if opn == 'BitAnd' else c_or(a, b)
        if isinstance(a, Ref) and st.o(a.a).kind in ('set', 'dict') or isinstance(b, Ref) and st.o(b.a).kind in ('set', 'dict'):
            if opn in ('BitOr', 'Sub', 'BitAnd'):
                return self.setop(I, st, opn, a, b)
        if opn == 'MatMult':
            return self.matmul(I, st, self.num2(I, st, a), self.num2(I, st, b))
        a = self.num2(I, st, a)
        b = self.num2(I, st, b)
        ok = (Poly, bool, Cond, Arr)
        if not isinstance(a, ok) or not isinstance(b, ok):
            if isinstance(a, Opaque) or isinstance(b, Opaque) or a is None or b is None:
                pass
            I.note(f'operator {opn} on {type(a).__name__}, {type(b).__name__}')
            return I.unk('op', self.deps(st, [a, b]))
        return self.emap(I, st, lambda x, y: self.sc(I, st, opn, x, y), a, b)

    def setop(self, I, st, opn, a, b):
        da, db = st.o(a.a).d, st.o(b.a).d
        if isinstance(da, dict) and isinstance(db, dict):
            return Ref(st.new('dict', {**da, **db}))
        da, db = list(da), list(db)
        if opn == 'BitOr':
            r = da + [x for x in db if x not in da]
        elif opn == 'Sub':
            r = [x for x in da if x not in db]
        else:
            r = [x for x in da if x in db]
        return Ref(st.new('set', r))

    def sc(self, I, st, opn, x, y):
        if opn in ('BitAnd', 'BitOr', 'BitXor') and isinstance(x, (bool, Cond)) and isinstance(y, (bool, Cond)):
            return c_and(x, y) if opn == 'BitAnd' else c_or(x, y) if opn == 'BitOr' else c_ite(x, c_not(y), y)
        x, y = self.topoly(x), self.topoly(y)
        if opn == 'Add':
            return add(x, y)
        if opn == 'Sub':
            return add(x, neg(y))
        if opn == 'Mult':
            return mul(x, y)
        if opn == 'Div':
            if y.const == 0:
                st.event('divzero', I.site())
            elif y.const is None:
                st.event('div', y, I.site())
            return div(x, y)
        if opn == 'Pow':
            return self.pow(x, y)
        if opn == 'FloorDiv':
            cx, cy = x.const, y.const
            if cx is not None and cy:
                return num(cx // cy)
            if cy and all((c / cy).denominator == 1 for c in x.terms.values()) and \
                    all(self.isint(ATOMS[a]) for m in x.terms for a, e in m):
                return scale(x, 1 / cy)
            return op('floor', div(x, y), int=True, nonneg=is_nonneg(x) and is_nonneg(y))
        if opn == 'Mod':
            cx, cy = x.const, y.const
            if cx is not None and cy:
                return num(cx % cy)
            if cy == 2 and all(c % 2 == 0 for c in x.terms.values()) and \
                    all(self.isint(ATOMS[a]) for m in x.terms for a, e in m):
                return ZERO
            if cy is None or not cy:
                st.event('mod', y, st.getctx().iv(y), I.site())
            return op('mod', x, y, nonneg=True)
        return op('bin' + opn, x, y)

    def isint(self, a):
        return bool(a.info and (a.info.get('int')))

    def pow(self, x, y):
        if y.const is None:
            r = power(x, y)
            a = the_atom(r)
            if a is not None and a.kind == 'op':
                c = x.const
                if (c is not None and c > 0) or self.pos(x):
                    a.info['pos'] = True
                elif is_nonneg(x):
                    a.info['nonneg'] = True
            return r
        return power(x, y)

    def pos(self, p):
        if not p.terms:
            return False
        return all(c > 0 and all((ATOMS[a].info or {}).get('pos') for a, e in m) for m, c in p.terms.items())

    def unary(self, I, st, opn, v):
        if opn == 'USub':
            v = self.num2(I, st, v)
            if isinstance(v, (Poly, bool, Cond, Arr)):
                return self.emap(I, st, lambda x: neg(self.topoly(x)), v)
            return I.unk('neg', self.deps(st, [v]))
        if opn == 'UAdd':
            return v
        if opn == 'Invert':
            if isinstance(v, (bool, Cond)):
                return c_not(v)
            if isinstance(v, Arr):
                return self.emap(I, st, lambda x: c_not(x) if isinstance(x, (bool, Cond)) else op('inv~', x), v)
        return I.unk('unary', self.deps(st, [v]))

    CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}

    def compare(self, I, st, opn, a, b):
        if opn in ('Is', 'IsNot'):
            r = self.same(st, a, b)
            return r if opn == 'Is' else c_not(r)
        if opn in ('In', 'NotIn'):
            r = self.contains(I, st, b, a)
            return r if opn == 'In' else c_not(r)
        if isinstance(a, (Arr, Poly, bool, Cond)) and isinstance(b, (Arr, Poly, bool, Cond)):
            if isinstance(a, Arr) or isinstance(b, Arr):
                return self.emap(I, st, lambda x, y: self.cmp1(opn, x, y), a, b)
            return self.cmp1(opn, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            o = b if isinstance(a, Arr) else a
            if isinstance(o, tuple) or isinstance(o, Ref) and st.o(o.a).kind == 'list':
                return self.emap(I, st, lambda x, y: self.cmp1(opn, x, y), self.num2(I, st, a), self.num2(I, st, b))
            return opn == 'NotEq'
        if opn in ('Eq', 'NotEq'):
            r = self.equal(I, st, a, b)
            return r if opn == 'Eq' else c_not(r)
        if isinstance(a, tuple) and isinstance(b, tuple) and opn in self.CMP:
            pass
        _muc[0] += 1
        return cond('opq', _muc[0], tuple(x for x in self.deps(st, [a, b])))

    def cmp1(self, opn, x, y):
        if isinstance(x, (bool, Cond)) and isinstance(y, bool) and opn in ('Eq', 'NotEq'):
            r = x if y else c_not(x)
            return r if opn == 'Eq' else c_not(r)
        return c_cmp(self.CMP[opn], self.topoly(x), self.topoly(y))

    def same(self, st, a, b):
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if isinstance(o, Poly):
                at = the_atom(o)
                if at is not None and at.info and (at.info.get('unk') or at.info.get('weak') or at.info.get('maybenone')):
                    return cond('isnone', o)
                if at is not None and at.kind == 'sym' and at.args[0] == 'None':
                    return True
                if at is not None and at.kind == 'ite':
                    return c_ite(at.args[0], self.same(st, None if at.args[1] is sym('None') else at.args[1], None),
                                 self.same(st, None if at.args[2] is sym('None') else at.args[2], None))
            return False
        if a is b:
            return True
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Cond) and isinstance(b, bool):
            return a if b else c_not(a)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a == b
        if isinstance(a, Poly) and isinstance(b, Poly):
            return c_cmp('==', a, b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Poly) or isinstance(b, Poly):
            o = a if isinstance(a, Poly) else b
            at = the_atom(o)
            if at is not None and at.info and at.info.get('unk'):
                return cond('isobj', o, id(b if o is a else a))
        return False

    def equal(self, I, st, a, b):
        if a is b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = c_and(r, self.truthy(I, st, self.compare(I, st, 'Eq', x, y)))
            return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            oa, ob = st.o(a.a), st.o(b.a)
            if oa.kind == ob.kind == 'list':
                return self.equal(I, st, tuple(oa.d), tuple(ob.d))
            return False
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if a is None or b is None:
            return self.same(st, a, b)
        if isinstance(a, (Poly, Cond)) or isinstance(b, (Poly, Cond)):
            o, q = (a, b) if isinstance(a, (Poly, Cond)) else (b, a)
            at = the_atom(o) if isinstance(o, Poly) else None
            if at is not None and at.info and (at.info.get('unk') or at.info.get('anystr')) and isinstance(q, str):
                return cond('streq', o, q)
            return False
        if isinstance(a, Typ) and isinstance(b, Typ):
            if {a.name, b.name} <= {'dtype', 'float64', 'float'}:
                return not self.isdtype_complex or a.name == b.name
            if {a.name, b.name} <= {'dtype', 'complex128', 'complex'}:
                return self.isdtype_complex or a.name == b.name
            return a.name == b.name
        if isinstance(a, (Opaque, Rng, Seq, ExtMod)):
            return a == b
        return False

    def contains(self, I, st, seq, x):
        if isinstance(seq, str):
            if isinstance(x, str):
                return x in seq
            return cond('opqv', (self.topoly(x), seq))
        if isinstance(seq, Rng):
            its = self.iterate(I, st, seq)
            if its is not None:
                seq = tuple(its)
            else:
                _muc[0] += 1
                return cond('opq', _muc[0])
        if isinstance(seq, Ref):
            o = st.o(seq.a)
            if o.kind == 'dict':
                if isinstance(x, (str, Poly, tuple)) and not isinstance(x, Poly):
                    return x in o.d
                seq = tuple(o.d)
            elif o.kind in ('list', 'set'):
                if o.meta.get('unklen'):
                    _muc[0] += 1
                    return cond('opq', _muc[0])
                seq = tuple(o.d)
            else:
                _muc[0] += 1
                return cond('opq', _muc[0])
        if isinstance(seq, Arr):
            c = self.emap(I, st, lambda y: self.cmp1('Eq', self.topoly(x), y), seq)
            seq = None
            r = False
            for v in self.asarr(st, c)[1].values():
                r = c_or(r, v)
            return r
        if isinstance(seq, tuple):
            r = False
            for y in seq:
                if y is x:
                    return True
                if isinstance(y, Arr) or isinstance(x, Arr):
                    if isinstance(x, Arr) and isinstance(y, Arr):
                        c = cond('opqv', (str(x), str(y)))
                    else:
                        c = False
                else:
                    c = self.truthy(I, st, self.compare(I, st, 'Eq', y, x))
                r = c_or(r, c)
            return r
        _muc[0] += 1
        return cond('opq', _muc[0])

    def inplace(self, I, st, a, opn, v):
        self.wevent(I, st, a, 'aug' + opn)
        r = self.binop(I, st, opn, a, v)
        if a.axes is None or (isinstance(r, Arr) and r.axes is None):
            self.weak(st, a.b, [c for c in self.asarr(st, r)[1].values()])
        else:
            self.store(I, st, a, r)
        self.propagate(st, a, r)

    # ------------------------------------------------------------ sequences
    def iterate(self, I, st, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            o = st.o(v.a)
            if o.meta.get('unklen'):
                return None
            if o.kind in ('list', 'set'):
                return list(o.d)
            if o.kind == 'dict':
                return list(o.d)
            return None
        if isinstance(v, Rng):
            a, b, s = v.a.const, v.b.const, v.s.const
            if a is not None and b is not None and s:
                return [num(i) for i in range(int(a), int(b), int(s))]
            return None
        if isinstance(v, Seq):
            if v.kind == 'enumerate':
                its = self.iterate(I, st, v.parts[0])
                if its is None:
                    return None
                return [(add(v.parts[1], num(i)), x) for i, x in enumerate(its)]
            if v.kind == 'zip':
                ls = [self.iterate(I, st, p) for p in v.parts]
                if any(x is None for x in ls):
                    return None
                return list(zip(*ls))
            if v.kind == 'reversed':
                its = self.iterate(I, st, v.parts[0])
                return None if its is None else its[::-1]
            return None
        if isinstance(v, Arr):
            if v.axes is None or not v.axes:
                return None
            s = self.sizes(st, v)
            if all(x is ONE for x in s[0]):
                return [self.getitem_arr(I, st, v, (num(i),)) for i in range(len(s[0]))]
            return None
        return None

    def element(self, I, st, it, items, fresh=False, first=False):
        if items is not None and items and all(isinstance(i, Poly) for i in items):
            if first:
                return items[0]
            cs = [i.const for i in items]
            info = {}
            if all(c is not None for c in cs):
                info = dict(lo=float(min(cs)), hi=float(max(cs)), int=all(c == int(c) for c in cs))
                lo = cs[1] if len(cs) > 1 else cs[0]
                if list(cs) == sorted(cs):
                    info['lo'] = float(min(lo, cs[-1]))
                if info['lo'] > 0:
                    info['pos'] = True
            return mu('it', items, **info)
        if isinstance(it, Rng):
            if first:
                return it.a
            lo = st.getctx().iv(it.a)[0]
            info = {'int': True}
            if it.s.const is not None and it.s.const > 0:
                info['lo'] = lo
                if lo > 0:
                    info['pos'] = True
                elif lo >= 0:
                    info['nonneg'] = True
            return mu('i', [it.a, it.b], **info)
        if isinstance(it, Seq):
            if it.kind == 'enumerate':
                return (self.element(I, st, Rng(it.parts[1], sym('len'), ONE), None, fresh, first),
                        self.element(I, st, it.parts[0], None, fresh, first))
            if it.kind == 'zip':
                return tuple(self.element(I, st, p, None, fresh, first) for p in it.parts)
            if it.kind == 'reversed':
                return self.element(I, st, it.parts[0], None, fresh, False)
            if it.kind == 'repeat':
                return it.parts[0][0] if len(it.parts[0]) == 1 else I.unk('rep', self.deps(st, it.parts[0]))
        if isinstance(it, tuple):
            return it[0] if it and len(set(map(id, it))) == 1 else I.unk('elt', self.deps(st, it))
        if isinstance(it, Ref) and st.o(it.a).kind == 'list' and st.o(it.a).d:
            d = st.o(it.a).d
            return d[0] if len(d) == 1 else I.unk('elt', self.deps(st, d))
        if isinstance(it, Arr):
            if it.axes is None:
                return self.unkarr(I, st, list(self.asarr(st, it)[1].values()))
            i = mu('i', [], int=True, nonneg=True)
            return self.getitem_arr(I, st, it, (i,))
        return I.unk('elt', self.deps(st, [it]))

    def nonempty(self, I, st, it):
        if isinstance(it, Rng) and it.s.const is not None and it.s.const > 0:
            return st.truth(c_cmp('<', it.a, it.b)) is True
        return False

    # -------------------------------------------------------------- indexing
    def getitem(self, I, st, o, i):
        if isinstance(o, RObj):
            if o.name == 's_':
                return i
            return self.concat(I, st, list(i) if isinstance(i, tuple) else [i], 0)
        if isinstance(o, Ref):
            h = st.o(o.a)
            if h.kind == 'dict':
                if isinstance(i, Poly) and i not in h.d or h.meta.get('unklen'):
                    return I.unk('dictitem', self.deps(st, [o]))
                if i in h.d:
                    return h.d[i]
                I.raise_(Exc('KeyError', (i,)), st.fork())
                return I.unk('key')
            if h.kind == 'list':
                if h.meta.get('unklen'):
                    return h.d[0] if len(h.d) == 1 else I.unk('item', self.deps(st, [o]))
                return self.seqitem(I, st, h.d, i, lambda x: Ref(st.new('list', list(x))))
            if h.kind == 'class' or h.kind == 'inst':
                return I.unk('clsitem')
        if isinstance(o, (tuple, str)):
            return self.seqitem(I, st, o, i, lambda x: x)
        if isinstance(o, Arr):
            if isinstance(i, tuple):
                i = tuple(self.ixnorm(I, st, x) for x in i)
            else:
                i = self.ixnorm(I, st, i)
            return self.getitem_arr(I, st, o, i)
        if isinstance(o, (Poly, bool, Cond)):
            if i == () or i is Ellipsis:
                return o
            return I.unk('item', self.deps(st, [o, i]))
        if isinstance(o, (Rng, Seq)):
            its = self.iterate(I, st, o)
            if its is not None:
                return self.seqitem(I, st, tuple(its), i, lambda x: x)
            return self.element(I, st, o, None)
        return I.unk('item', self.deps(st, [o, i]))

    def ixnorm(self, I, st, x):
        if isinstance(x, (bool,)):
            return num(int(x))
        if isinstance(x, Ref) and st.o(x.a).kind == 'list' or isinstance(x, tuple):
            return self.toarr(st, x)
        if isinstance(x, Arr) and x.axes == ():
            return self.cells(st, x)[()]
        return x

    def seqitem(self, I, st, d, i, mk_):
        if isinstance(i, bool):
            i = num(int(i))
        if isinstance(i, Poly):
            c = i.const
            if c is not None:
                if -len(d) <= c < len(d):
                    return d[int(c)]
                I.raise_(Exc('IndexError', (int(c),)), st.fork())
                return I.unk('index')
            if all(isinstance(x, Poly) for x in d) and d:
                return self.joincells(list(d), (i,), keep=False)
            if d and all(isinstance(x, Arr) for x in d):
                cells = [c for x in d for c in self.asarr(st, x)[1].values()]
                sz = {self.asarr(st, x)[0] for x in d}
                if len(sz) == 1 and None not in sz:
                    s = sz.pop()
                    cc = [self.cells(st, x) for x in d]
                    data = {p: self.joincells([c[p] for c in cc], (i,), keep=True) for p in positions(s)}
                    return self.mkarr(st, s, data, alias=frozenset(x.b for x in d))
                return self.unkarr(I, st, cells, alias=frozenset(x.b for x in d))
            return I.unk('item', self.deps(st, list(d) + [i]))
        if isinstance(i, Slice_):
            v = [None if x is None else (x.const if isinstance(x, Poly) else 'u') for x in (i.a, i.b, i.c)]
            if all(x is None or (x != 'u' and x is not None) for x in v) and \
                    not any(isinstance(x, Poly) and x.const is None for x in (i.a, i.b, i.c)):
                return mk_(d[slice(*[None if x is None else int(x) for x in v])])
            return I.unk('slice', self.deps(st, list(d) if not isinstance(d, str) else []))
        return I.unk('item', self.deps(st, list(d) if not isinstance(d, str) else []))

    def setitem(self, I, st, o, i, v):
        if isinstance(o, Ref):
            h = st.o(o.a)
            if h.kind == 'dict':
                I.list_write(st, o)
                st.w(o.a).d[i] = v
                return
            if h.kind == 'list':
                I.list_write(st, o)
                w = st.w(o.a)
                if isinstance(i, Poly) and i.const is not None and -len(w.d) <= i.const < len(w.d) and not h.meta.get('unklen'):
                    w.d[int(i.const)] = v
                else:
                    w.d = [self.joinvals(I, st, x, v) for x in w.d]
                return
        if isinstance(o, Arr):
            if isinstance(i, tuple):
                i = tuple(self.ixnorm(I, st, x) for x in i)
            else:
                i = self.ixnorm(I, st, i)
            self.setitem_arr(I, st, o, i, self.num2(I, st, v))
            return
        I.note(f'item assignment on {type(o).__name__}')

    def joinvals(self, I, st, x, v):
        if x is v:
            return x
        return I.unk('join', self.deps(st, [x, v]))

    # --------------------------------------------------------------- attrs
    def attr(self, I, st, o, name):
        if isinstance(o, ExtMod):
            return self.extattr(I, st, o.name, name)
        if isinstance(o, Arr):
            return self.arrattr(I, st, o, name)
        if isinstance(o, (Poly, bool, Cond)):
            return self.scattr(I, st, o, name)
        if isinstance(o, FInfo) and o.tag:
            # constants of a fixed type, not of the type of the problem
            b = {'eps': EPS, 'epsneg': EPSNEG, 'tiny': TINY, 'smallest_normal': TINY}.get(name)
            if b is not None:
                b = the_atom(b)
                return sym(f'{o.tag}.{b.args[0]}', **b.info)
        if isinstance(o, FInfo):
            return {'eps': EPS, 'epsneg': EPSNEG, 'tiny': TINY, 'smallest_normal': TINY, 'max': FMAX, 'min': neg(FMAX),
                    'resolution': EPS}.get(name) or I.unk('finfo.' + name)
        if isinstance(o, str):
            return Builtin('str.' + name, lambda I, st, a, k: one(self.strmeth(I, st, o, name, a), st))
        if isinstance(o, Opaque):
            if name in o.attrs:
                return o.attrs[name]
            I.note(f'attribute {name} of {o.name}')
            return I.unk('attr:' + name, self.deps(st, list(o.attrs.values())))
        if isinstance(o, tuple):
            return Builtin('tuple.' + name, lambda I, st, a, k: one(I.unk('tuple.' + name, self.deps(st, o)), st))
        if isinstance(o, Typ):
            if name == 'type':
                return o
            if name == 'kind':
                return 'c' if self.isdtype_complex else 'f'
            return Opaque(o.name + '.' + name)
        if isinstance(o, Slice_):
            return {'start': o.a, 'stop': o.b, 'step': o.c}.get(name)
        if isinstance(o, Builtin):
            if name in ('reduce', 'accumulate', 'outer'):
                return self.funcs.get({'add.reduce': 'sum', 'maximum.reduce': 'max'}.get(o.name + '.' + name, ''),
                                      self.unknown_fn(o.name + '.' + name))
            if name == '__name__':
                return o.name
        if isinstance(o, RObj):
            return I.unk('r_')
        if isinstance(o, Bound) and name in ('__name__', '__self__'):
            return o.s if name == '__self__' else 'method'
        I.note(f'attribute {name} of {type(o).__name__}')
        return I.unk('attr:' + name)

    def strmeth(self, I, st, s, name, args):
        if name in ('lower', 'upper', 'strip', 'capitalize', 'title'):
            return getattr(s, name)()
        if name in ('startswith', 'endswith') and args and isinstance(args[0], str):
            return getattr(s, name)(args[0])
        return '{}'

    def shape(self, st, a):
        return tuple(self.total(s) for s in self.sizes(st, a))

    def arrattr(self, I, st, a, name):
        L = self
        o = st.o(a.b)
        if name == 'T':
            return self.transpose_arr(st, a)
        if name == 'dtype':
            return o.meta.get('dtype') or DT
        if a.axes is None:
            if name in ('size', 'ndim'):
                return op(name, tuple(o.d.values()), pos=True, int=True, axis=False)
            if name == 'shape':
                return I.unk('shape')
        else:
            if name == 'shape':
                return self.shape(st, a)
            if name == 'ndim':
                return num(len(a.axes))
            if name == 'size':
                r = ONE
                for s in self.shape(st, a):
                    r = mul(r, s)
                return r
        if name in ('real', 'imag'):
            if name == 'real' and all(v_real(c) for c in self.asarr(st, a)[1].values()):
                return a
            return self.emap(I, st, lambda x: split_real(self.topoly(x), name), a)
        if name == 'flat':
            return Seq('flat', (a,))
        return Builtin('arr.' + name, lambda I, st, args, kw: L.arrmeth(I, st, a, name, args, kw))

    def arrmeth(self, I, st, a, name, args, kw):
        o = st.o(a.b)
        if name in ('copy', 'todense', 'toarray', 'tocsc', 'tocsr', 'asformat'):
            s, c = self.asarr(st, a)
            if s is None:
                return one(self.unkarr(I, st, list(c.values())), st)
            return one(self.mkarr(st, s, dict(c), sparse=o.meta.get('sparse') if name in ('copy', 'tocsc', 'tocsr') else None,
                                  dtype=o.meta.get('dtype')), st)
        if name == 'astype':
            if kw.get('copy') is False:
                return one(a, st)
            s, c = self.asarr(st, a)
            if s is None:
                return one(self.unkarr(I, st, list(c.values())), st)
            return one(self.mkarr(st, s, dict(c)), st)
        if name in ('conjugate', 'conj'):
            return self.funcs['conj'].fn(I, st, [a], kw)
        if name == 'fill':
            self.setitem_arr(I, st, a, (Ellipsis,), args[0])
            return one(None, st)
        if name == 'item':
            return one(self.truthcell(I, st, a), st)
        if name in ('reshape', 'flatten', 'ravel'):
            return one(self.reshape(I, st, a, name, args, kw), st)
        if name == 'solve':
            return one(self.lusolve(I, st, a, args[0]), st)
        if name == 'view':
            return one(a, st)
        if name == 'tolist':
            its = self.iterate(I, st, a)
            if its is not None:
                return one(Ref(st.new('list', its)), st)
        if name == 'sort':
            self.wevent(I, st, a, 'sort')
            return one(None, st)
        if name == 'dot':
            return one(self.matmul(I, st, a, args[0]), st)
        if name == 'setdiag':
            self.setitem_arr(I, st, a, (Ellipsis,), args[0])
            return one(None, st)
        key = {'max': 'max', 'min': 'min', 'any': 'any', 'all': 'all', 'sum': 'sum', 'mean': 'mean', 'cumsum': 'cumsum',
               'cumprod': 'cumprod', 'diagonal': 'diag', 'squeeze': 'squeeze', 'argmax': 'argmax', 'argmin': 'argmin',
               'transpose': 'transpose', 'prod': 'prod', 'clip': 'clip', 'swapaxes': 'transpose', 'diff': 'diff',
               'nonzero': 'nonzero', 'trace': 'trace', 'repeat': 'repeat', 'round': 'round'}.get(name)
        if key and key in self.funcs:
            return self.funcs[key].fn(I, st, [a] + list(args), kw)
        I.note(f'array method {name}')
        return one(self.unkval(I, st, 'arr.' + name, self.deps(st, [a] + list(args))), st)

    def truthcell(self, I, st, a):
        c = list(self.asarr(st, a)[1].values())
        return c[0] if len(c) == 1 else I.unk('item', c)

    def scattr(self, I, st, o, name):
        if name in ('shape',):
            at = the_atom(o) if isinstance(o, Poly) else None
            if at is not None and at.info and at.info.get('unk'):
                return I.unk('shape')
            return ()
        if name == 'ndim':
            return ZERO
        if name == 'size':
            return ONE
        if name == 'dtype':
            return DT
        if name == 'T':
            return o
        if name in ('real', 'imag'):
            return split_real(self.topoly(o), name)
        at = the_atom(o) if isinstance(o, Poly) else None
        if at is not None and name in ('solve',):
            return Builtin('lu.solve', lambda I, st, a, k: one(self.lusolve(I, st, o, a[0]), st))

        def m(I, st, args, kw):
            if name in ('copy', 'item', 'astype', 'conjugate', 'conj', 'sum', 'min', 'max', 'mean', 'all', 'any', 'squeeze',
                        'flatten', 'ravel', 'toarray', 'todense', 'tolist'):
                if name.startswith('conj'):
                    return one(conj(self.topoly(o)), st)
                return one(o, st)
            if name == 'is_integer':
                return one(cond('isint', self.topoly(o)), st)
            I.note(f'scalar method {name}')
            return one(I.unk('m:' + name, [self.topoly(o)]), st)
        if at is not None and at.info and at.info.get('unk') and at.kind == 'mu':
            return mu('?' + name, [o], unk=True, nan=True)
        return Builtin('scalar.' + name, m)

    def method(self, I, st, ref, name):
        h = st.o(ref.a)

        def f(I, st, args, kw):
            h = st.o(ref.a)
            if h.kind in ('list', 'set'):
                if name in ('append', 'add'):
                    I.list_write(st, ref)
                    w = st.w(ref.a)
                    if w.meta.get('unklen'):
                        w.d = [self.joinvals(I, st, x, args[0]) for x in w.d] or [args[0]]
                    else:
                        w.d.append(args[0])
                    return one(None, st)
                if name == 'extend':
                    I.list_write(st, ref)
                    its = self.iterate(I, st, args[0])
                    if its is None:
                        w = st.w(ref.a)
                        w.d = [I.unk('ext', self.deps(st, [args[0]]))]
                        w.meta = dict(w.meta, unklen=True)
                    else:
                        st.w(ref.a).d.extend(its)
                    return one(None, st)
                if name == 'pop':
                    I.list_write(st, ref)
                    w = st.w(ref.a)
                    i = int(args[0].const) if args and isinstance(args[0], Poly) and args[0].const is not None else -1
                    return one(w.d.pop(i) if w.d else I.unk('pop'), st)
                if name == 'insert':
                    I.list_write(st, ref)
                    if isinstance(args[0], Poly) and args[0].const is not None:
                        st.w(ref.a).d.insert(int(args[0].const), args[1])
                    return one(None, st)
                if name in ('reverse', 'sort', 'clear', 'remove'):
                    I.list_write(st, ref)
                    w = st.w(ref.a)
                    if name == 'reverse':
                        w.d.reverse()
                    elif name == 'clear':
                        w.d.clear()
                    return one(None, st)
                if name == 'copy':
                    return one(Ref(st.new(h.kind, list(h.d), {k: v for k, v in h.meta.items() if k == 'unklen'})), st)
                if name == 'index':
                    for i, x in enumerate(h.d):
                        if x is args[0] or self.equal(I, st, x, args[0]) is True:
                            return one(num(i), st)
            if h.kind == 'dict':
                if name == 'get':
                    if args[0] in h.d:
                        return one(h.d[args[0]], st)
                    return one(args[1] if len(args) > 1 else None, st)
                if name in ('keys', 'values', 'items'):
                    d = h.d
                    r = list(d) if name == 'keys' else list(d.values()) if name == 'values' else list(d.items())
                    return one(tuple(r), st)
                if name == 'pop':
                    I.list_write(st, ref)
                    if args[0] in h.d:
                        return one(st.w(ref.a).d.pop(args[0]), st)
                    if len(args) > 1:
                        return one(args[1], st)
                    I.raise_(Exc('KeyError', ()), st)
                    return []
                if name == 'setdefault':
                    if args[0] in h.d:
                        return one(h.d[args[0]], st)
                    I.list_write(st, ref)
                    st.w(ref.a).d[args[0]] = args[1] if len(args) > 1 else None
                    return one(st.o(ref.a).d[args[0]], st)
                if name == 'update':
                    I.list_write(st, ref)
                    for a in args:
                        if isinstance(a, Ref) and st.o(a.a).kind == 'dict':
                            st.w(ref.a).d.update(st.o(a.a).d)
                    st.w(ref.a).d.update(kw)
                    return one(None, st)
                if name == 'copy':
                    return one(Ref(st.new('dict', dict(h.d))), st)
            I.note(f'method {h.kind}.{name}')
            return one(I.unk('m:' + name, self.deps(st, [ref] + list(args))), st)
        return Builtin(f'{h.kind}.{name}', f)


CONSTS = {'inf': INF, 'nan': NAN, 'newaxis': None, 'pi': num(Fr(math.pi)), 'e': num(Fr(math.e)), 'Inf': INF,
          'infty': INF, 'r_': RObj('r_'), 's_': RObj('s_')}

from . import libfn      # noqa: E402,F401  (adds make_builtins / make_numpy)
