"""Value numbers: hash-consed polynomial normal forms over opaque atoms.

A Poly is a linear combination (rational coefficients) of monomials in atoms.
Atoms are leaf symbols, applications of the user's functions, uninterpreted
operators, gated merges (ite) and loop widening points (mu).  Two expressions
that are equal by ring arithmetic get the same (identical) Poly object.
"""
from fractions import Fraction as Fr
from math import isqrt

MAXTERMS = 600


class Atom:
    __slots__ = ('kind', 'args', 'id', 'info', '__weakref__')

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_nat = [0]
ATOMS = []


def atom(kind, *args, info=None):
    key = (kind,) + args
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.id = _nat[0]
        a.info = info
        _nat[0] += 1
        _atoms[key] = a
        ATOMS.append(a)
    return a


class Poly:
    # terms: dict monomial -> Fraction ; monomial: tuple of (atom id, exp)
    __slots__ = ('terms', 'key', '_iv', 'axes_', 'id', 'cache')

    def __repr__(self):
        return show(self)

    # arithmetic -------------------------------------------------------
    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return add(self, neg(o))

    def __mul__(self, o):
        return mul(self, o)

    def __neg__(self):
        return neg(self)

    @property
    def const(self):
        """Fraction value if constant, else None"""
        t = self.terms
        if not t:
            return Fr(0)
        if len(t) == 1 and () in t:
            return t[()]
        return None


_polys = {}


def mk(terms):
    key = frozenset(terms.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.terms = terms
        p.key = key
        p.id = len(_polys)
        p.cache = {}
        _polys[key] = p
    return p


ZERO = mk({})
ONE = mk({(): Fr(1)})


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else neg(INF)
        x = Fr(repr(x))
    x = Fr(x)
    return mk({(): x}) if x else ZERO


def of_atom(a, e=1):
    return mk({((a.id, e),): Fr(1)})


# symbol attributes: unit=(time, parity, state), real, lo, hi, nan, sign, axis, matrix, int ...
class Info(dict):
    def __hash__(self):
        return id(self)


def sym(name, **info):
    a = atom('sym', name)
    if a.info is None:
        a.info = Info(info)
    return of_atom(a)


INF = sym('inf', lo=1, pos=True, inf=True, wild=True)
NAN = sym('nan', wild=True)


def op(name, *args, **info):
    a = atom('op', name, *args)
    if a.info is None:
        a.info = Info(info)
    return of_atom(a)


def add(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    t = dict(a.terms)
    for m, c in b.terms.items():
        n = t.get(m)
        if n is None:
            t[m] = c
        else:
            n = n + c
            if n:
                t[m] = n
            else:
                del t[m]
    return mk(t)


def neg(a):
    return mk({m: -c for m, c in a.terms.items()})


def scale(a, c):
    if not c:
        return ZERO
    if c == 1:
        return a
    return mk({m: v * c for m, v in a.terms.items()})


_mm = {}


def is_sign(at):
    return at.info is not None and at.info.get('sign')


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    key = (m1, m2)
    r = _mm.get(key)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e != 0 and is_sign(ATOMS[a]) and e == int(e):
            e = int(e) % 2
        if e:
            if isinstance(e, Fr) and e.denominator == 1:
                e = int(e)
            out.append((a, e))
    r = tuple(sorted(out))
    _mm[key] = r
    return r


def mul(a, b):
    if not a.terms or not b.terms:
        # 0*x = 0 (finite arithmetic; non-finite values are tracked by intervals)
        return ZERO
    ca = a.const
    if ca is not None:
        return scale(b, ca)
    cb = b.const
    if cb is not None:
        return scale(a, cb)
    if len(a.terms) > 1 and len(b.terms) > 1 or len(a.terms) == 1 != len(b.terms) or len(b.terms) == 1 != len(a.terms):
        # cancellation of x * 1/x for multi-term x
        for p, q in ((a, b), (b, a)):
            if len(p.terms) == 1:
                (m, c), = p.terms.items()
                for i, (ai, e) in enumerate(m):
                    at = ATOMS[ai]
                    if at.kind == 'op' and at.args[0] == 'inv' and e >= 1:
                        lead = _lead(q)
                        if scale(q, 1 / lead) is at.args[1]:
                            rest = list(m)
                            if e == 1:
                                del rest[i]
                            else:
                                rest[i] = (ai, e - 1)
                            return mk({tuple(rest): c * lead})
    if len(a.terms) * len(b.terms) > MAXTERMS:
        x, y = sorted((a, b), key=lambda p: p.id)
        return op('mul', x, y)
    t = {}
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            m = mono_mul(m1, m2)
            v = t.get(m)
            v = c1 * c2 if v is None else v + c1 * c2
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    return mk(t)


def _lead(p):
    m = min(p.terms)      # deterministic given atom ids
    return p.terms[m]


def inv(p):
    c = p.const
    if c is not None:
        if c == 0:
            return op('inv', ZERO)
        return num(1 / c)
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        out = []
        for a, e in m:
            at = ATOMS[a]
            if is_sign(at):
                out.append((a, 1))
            elif at.kind == 'sym' and at.info.get('inf'):
                return ZERO
            else:
                out.append((a, -e))
        r = mk({tuple(sorted(out)): 1 / c})
        # expand inv(q)^-1 back to q
        for a, e in out:
            at = ATOMS[a]
            if at.kind == 'op' and at.args[0] == 'inv' and e < 0 and e == int(e):
                rest = tuple((x, f) for x, f in out if x != a)
                return mul(mk({tuple(sorted(rest)): 1 / c}), power(at.args[1], -e))
        return r
    l = _lead(p)
    q = scale(p, 1 / l)
    return scale(op('inv', q), 1 / l)


def div(a, b):
    return mul(a, inv(b))


def nonneg_atom(at):
    i = at.info or {}
    return bool(i.get('pos') or i.get('nonneg'))


def fsqrt(x, digits=60):
    """rational approximation of sqrt of a Fraction, ~60 digits"""
    n, d = x.numerator, x.denominator
    r1, r2 = isqrt(n), isqrt(d)
    if r1 * r1 == n and r2 * r2 == d:
        return Fr(r1, r2)
    k = 10 ** digits
    return Fr(isqrt(n * d * k * k), d * k)


def fpow(c, e):
    """c>0 Fraction to fractional power"""
    if e == int(e):
        return c ** int(e)
    if (2 * e) == int(2 * e):
        return fsqrt(c) ** int(2 * e)
    import decimal
    with decimal.localcontext() as ctx:
        ctx.prec = 50
        v = (decimal.Decimal(c.numerator) / decimal.Decimal(c.denominator)) ** \
            (decimal.Decimal(e.numerator) / decimal.Decimal(e.denominator))
        return Fr(v)


def power(p, e):
    """e: Fraction/int or Poly"""
    if isinstance(e, Poly):
        c = e.const
        if c is None:
            if p is ONE:
                return ONE
            return op('pow', p, e)
        e = c
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    c = p.const
    if c is not None:
        if c > 0:
            return num(fpow(c, e))
        if e == int(e) and c != 0:
            return num(c ** int(e))
        if c == 0 and e > 0:
            return ZERO
        return op('pow', p, num(e))
    if e == int(e):
        n = int(e)
        if n < 0:
            return power(inv(p), -n)
        if len(p.terms) == 1 or n <= 4 and len(p.terms) ** n <= 200:
            r = p
            for _ in range(n - 1):
                r = mul(r, p)
            return r
        return op('pow', p, num(e))
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c > 0 and all(nonneg_atom(ATOMS[a]) for a, _ in m):
            out = []
            for a, k in m:
                k = k * e
                out.append((a, int(k) if k == int(k) else k))
            return mul(num(fpow(c, e)), mk({tuple(sorted(out)): Fr(1)}))
    r = op('pow', p, num(e))
    a = the_atom(r)
    a.info['nonneg'] = True
    return r


def the_atom(p):
    """the atom if p is exactly 1*atom, else None"""
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


def absv(p):
    c = p.const
    if c is not None:
        return num(abs(c))
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        out = num(abs(c))
        for a, e in m:
            at = ATOMS[a]
            if is_sign(at):
                continue
            base = of_atom(at)
            if nonneg_atom(at) or (e == int(e) and int(e) % 2 == 0 and not at_complex(at)):
                out = mul(out, power(base, e))
            else:
                x = op('abs', base, nonneg=True)
                out = mul(out, power(x, e))
        return out
    l = _lead(p)
    if l < 0:
        p = neg(p)
    # pull out a sign atom common to all terms
    signs = None
    for m in p.terms:
        s = {a for a, e in m if is_sign(ATOMS[a])}
        signs = s if signs is None else signs & s
    if signs:
        for s in signs:
            p = mul(p, of_atom(ATOMS[s]))
        if _lead(p) < 0:
            p = neg(p)
    return op('abs', p, nonneg=True)


def at_complex(at):
    return not (at.info or {}).get('real', True)


def sign(p):
    c = p.const
    if c is not None:
        return num((c > 0) - (c < 0))
    l = _lead(p)
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        out = ONE if c > 0 else num(-1)
        for a, e in m:
            at = ATOMS[a]
            if nonneg_atom(at):
                continue
            if is_sign(at):
                out = mul(out, of_atom(at))
            else:
                out = mul(out, op('sign', of_atom(at), sign=True))
        return out
    if l < 0:
        return neg(op('sign', neg(p), sign=True))
    return op('sign', p, sign=True)


# traversal -----------------------------------------------------------
def poly_atoms(p):
    c = p.cache.get('atoms')
    if c is None:
        s = set()
        for m in p.terms:
            for a, e in m:
                s.add(a)
        c = p.cache['atoms'] = tuple(ATOMS[i] for i in sorted(s))
    return c


def walk(root, through_mu=False):
    """all atoms reachable from a Poly / tuple / formula (children included)"""
    seen = set()
    stack = [root]
    out = []
    while stack:
        x = stack.pop()
        if isinstance(x, Poly):
            if ('p', x.id) in seen:
                continue
            seen.add(('p', x.id))
            stack.extend(poly_atoms(x))
        elif isinstance(x, Atom):
            if ('a', x.id) in seen:
                continue
            seen.add(('a', x.id))
            out.append(x)
            stack.extend(x.args)
            if through_mu and x.kind == 'mu':
                stack.extend(MU_SOURCES.get(x.id, ()))
        elif isinstance(x, (tuple, list, frozenset, set)):
            stack.extend(x)
        elif hasattr(x, 'fargs'):
            if ('f', id(x)) in seen:
                continue
            seen.add(('f', id(x)))
            stack.extend(x.fargs)
    return out


MU_SOURCES = {}     # mu atom id -> set of source values (Poly)


# formulas --------------------------------------------------------------
class Cond:
    """boolean formula; kinds: lt (a<b, False if NaN), le, eq, and, or, not, opq, ite"""
    __slots__ = ('kind', 'fargs', 'id')

    def __repr__(self):
        return show_cond(self)


_conds = {}


def cond(kind, *args):
    key = (kind,) + args
    c = _conds.get(key)
    if c is None:
        c = Cond()
        c.kind = kind
        c.fargs = args
        c.id = len(_conds)
        _conds[key] = c
    return c


def c_not(c):
    if isinstance(c, bool):
        return not c
    if c.kind == 'not':
        return c.fargs[0]
    return cond('not', c)


def c_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if a is b:
        return a
    if a is c_not(b):
        return False
    x, y = sorted((a, b), key=lambda c: c.id)
    return cond('and', x, y)


def c_or(a, b):
    return c_not(c_and(c_not(a), c_not(b)))


def c_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return c_not(c)
    return c_or(c_and(c, a), c_and(c_not(c), b))


def c_cmp(opn, a, b):
    """opn in < <= > >= == != ; a, b Poly"""
    if opn == '>':
        return c_cmp('<', b, a)
    if opn == '>=':
        return c_cmp('<=', b, a)
    if opn == '!=':
        return c_not(c_cmp('==', a, b))
    ca, cb = a.const, b.const
    if ca is not None and cb is not None:
        return {'<': ca < cb, '<=': ca <= cb, '==': ca == cb}[opn]
    if opn == '==':
        if a is b and not _maybe_nan(a):
            return True
        d = add(a, neg(b))
        if not d.terms:
            return True
        if d.const is not None:
            return False
        l = _lead(d)
        d = scale(d, 1 / l)
        return cond('eq', d)
    # inf handling
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x is INF and y.const is not None:
            return flip     # inf < c False ; c < inf True
        if x is neg(INF) and y.const is not None:
            return not flip
    if a is b:
        return opn == '<=' and (True if not _maybe_nan(a) else cond('le', a, b))
    return cond('lt' if opn == '<' else 'le', a, b)


def _maybe_nan(p):
    return False


ROUNDING = [False]       # True: keep apart values that only differ by rounding


def _multiple(e, d):
    """e is a constant (times a sign) multiple of d"""
    if len(e.terms) != len(d.terms):
        return False
    for f in (ONE,) + tuple(of_atom(x) for x in poly_atoms(d) if x.info and x.info.get('sign')):
        g = mul(e, f)
        if g.terms.keys() == d.terms.keys():
            r = {g.terms[m] / d.terms[m] for m in d.terms}
            if len(r) == 1:
                return True
    return False


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if c.kind == 'not':
        c, a, b = c.fargs[0], b, a
        if a is b:
            return a
    if c.kind == 'eq' and not ROUNDING[0] and _multiple(add(a, neg(b)), c.fargs[0]):
        return b              # both branches are the same number
    x, y = the_atom(a), the_atom(b)
    if x is not None and y is not None and x.kind == y.kind == 'app' and x.args[0] == y.args[0]:
        g = _gate_args(c, x.args[1:], y.args[1:])
        if g is not None:
            at = atom('app', x.args[0], *g)
            if at.info is None:
                at.info = x.info
            return of_atom(at)
    # normal form: common terms and common factors are pulled out
    if a in (INF, NAN) or b in (INF, NAN) or a is neg(INF) or b is neg(INF):
        return of_atom(_ite_atom(c, a, b))
    com = {m: k for m, k in a.terms.items() if b.terms.get(m) == k}
    base = ZERO
    if com:
        base = mk(com)
        nb = neg(base)
        a, b = add(a, nb), add(b, nb)
    ms = list(a.terms) + list(b.terms)
    g = None
    for m in ms:
        d = {x: e for x, e in m if isinstance(e, int) and e > 0}
        g = d if g is None else {x: min(e, d[x]) for x, e in g.items() if x in d}
        if not g:
            break
    fac = ONE
    if g:
        fac = mk({tuple(sorted(g.items())): Fr(1)})

        def red(p):
            t = {}
            for m, k in p.terms.items():
                t[tuple((x, e - g.get(x, 0)) for x, e in m if e != g.get(x, 0))] = k
            return mk(t)
        a, b = red(a), red(b)
    if a.terms or b.terms:
        l = _lead(a) if a.terms else _lead(b)
        if l != 1:
            fac = scale(fac, l)
            a, b = scale(a, 1 / l), scale(b, 1 / l)
    return add(base, mul(fac, of_atom(_ite_atom(c, a, b))))


def _gate_args(c, xs, ys):
    if len(xs) != len(ys):
        return None
    out = []
    for x, y in zip(xs, ys):
        if x is y or (not isinstance(x, (Poly, tuple)) and x == y):
            out.append(x)
        elif isinstance(x, Poly) and isinstance(y, Poly):
            out.append(ite(c, x, y))
        elif isinstance(x, tuple) and isinstance(y, tuple):
            g = _gate_args(c, x, y)
            if g is None:
                return None
            out.append(tuple(g))
        else:
            return None
    return out


def _ite_atom(c, a, b):
    at = atom('ite', c, a, b)
    if at.info is None:
        at.info = Info()
        if is_nonneg(a) and is_nonneg(b):
            at.info['nonneg'] = True
            if a.const and b.const or (ispos(a) and ispos(b)):
                at.info['pos'] = True
        for k in ('axis',):
            ia = [x.info.get(k) for x in poly_atoms(a) + poly_atoms(b) if x.info and x.info.get(k)]
            if ia:
                at.info[k] = ia[0]
    return at


def is_nonneg(p):
    """syntactic: every term has positive coefficient and nonneg atoms"""
    for m, c in p.terms.items():
        if c < 0:
            return False
        for a, e in m:
            at = ATOMS[a]
            if not nonneg_atom(at) and not (isinstance(e, int) and e % 2 == 0 and not at_complex(at)):
                return False
    return True


def ispos(p):
    if not p.terms:
        return False
    for m, c in p.terms.items():
        if c <= 0:
            return False
        for a, e in m:
            at = ATOMS[a]
            if not (at.info and at.info.get('pos')):
                return False
    return True


_muc = [0]


def mu(label, sources=(), **info):
    _muc[0] += 1
    a = atom('mu', _muc[0], label)
    a.info = Info(info)
    MU_SOURCES[a.id] = set(sources)
    return of_atom(a)


# substitution ------------------------------------------------------------
def subst(x, f, memo=None, mask=-1):
    """rebuild value x replacing atoms: f(atom) -> Poly or None; children are rebuilt first.
    mask: bits of the atoms that f may replace"""
    if memo is None:
        memo = {}
    if mask != -1 and isinstance(x, (Poly, Atom, Cond)):
        m = pmask(x) if isinstance(x, Poly) else amask(x) if isinstance(x, Atom) else cmask(x)
        if not m & mask:
            return x if not isinstance(x, Atom) else of_atom(x)
    if isinstance(x, Poly):
        r = memo.get(('p', x.id))
        if r is None:
            r = ZERO
            changed = False
            for m, c in x.terms.items():
                t = num(c)
                plain = []
                extra = ONE
                for a, e in m:
                    na = subst(ATOMS[a], f, memo, mask)
                    if the_atom(na) is ATOMS[a]:
                        plain.append((a, e))
                    else:
                        changed = True
                        extra = mul(extra, power(na, Fr(e)))
                r = add(r, mul(mul(mk({tuple(plain): Fr(1)}), t), extra))
            if not changed:
                r = x
            memo[('p', x.id)] = r
        return r
    if isinstance(x, Atom):
        r = memo.get(('a', x.id))
        if r is None:
            r = f(x)
            if r is None:
                if x.kind in ('sym', 'mu'):
                    r = of_atom(x)
                else:
                    na = tuple(subst(y, f, memo, mask) for y in x.args)
                    if all(p is q for p, q in zip(na, x.args)):
                        r = of_atom(x)
                    else:
                        r = rebuild(x, na)
            memo[('a', x.id)] = r
        return r
    if isinstance(x, tuple):
        r = tuple(subst(y, f, memo, mask) for y in x)
        return x if all(p is q for p, q in zip(r, x)) else r
    if isinstance(x, Cond):
        r = memo.get(('c', x.id))
        if r is None:
            na = tuple(subst(y, f, memo, mask) for y in x.fargs)
            if all(p is q for p, q in zip(na, x.fargs)):
                r = x
            elif x.kind in ('lt', 'le'):
                r = c_cmp('<' if x.kind == 'lt' else '<=', *na)
            elif x.kind == 'eq':
                r = c_cmp('==', na[0], ZERO)
            elif x.kind == 'and':
                r = c_and(*na)
            elif x.kind == 'not':
                r = c_not(na[0])
            else:
                r = cond(x.kind, *na)
            memo[('c', x.id)] = r
        return r
    return x


def rebuild(a, na):
    if a.kind == 'op':
        n = na[0]
        if n == 'inv':
            return inv(na[1])
        if n == 'abs':
            return absv(na[1])
        if n == 'pow':
            return power(na[1], na[2])
        if n == 'sign':
            return sign(na[1])
        if n == 'mul':
            return mul(na[1], na[2])
    if a.kind == 'ite':
        return ite(*na)
    b = atom(a.kind, *na)
    if b.info is None:
        b.info = a.info
    return of_atom(b)


# display -----------------------------------------------------------------
def show_atom(a, depth=3):
    if a.kind == 'sym':
        return str(a.args[0])
    if a.kind == 'mu':
        return f'{a.args[1]}~{a.args[0]}'
    if depth <= 0:
        return '…'
    if a.kind == 'ite':
        return f'ite({show_cond(a.args[0], depth-1)}, {show(a.args[1], depth-1)}, {show(a.args[2], depth-1)})'
    def sh(x):
        if isinstance(x, Poly):
            return show(x, depth - 1)
        if isinstance(x, Cond):
            return show_cond(x, depth - 1)
        if isinstance(x, tuple):
            return '(' + ', '.join(map(sh, x)) + ')'
        return str(x)
    return (a.args[0] if a.kind == 'op' else a.kind) + '(' + ', '.join(
        sh(x) for x in (a.args[1:] if a.kind == 'op' else a.args)) + ')'


def show_c(c):
    if c.denominator == 1:
        return str(c.numerator)
    if c.denominator < 10 ** 6:
        return f'{c.numerator}/{c.denominator}'
    return f'{float(c):.9g}'


def show(p, depth=3):
    if not p.terms:
        return '0'
    out = []
    for m, c in list(p.terms.items())[:12]:
        f = []
        for a, e in m:
            s = show_atom(ATOMS[a], depth)
            f.append(s if e == 1 else f'{s}^{e}')
        if not f:
            out.append(show_c(c))
        elif c == 1:
            out.append('*'.join(f))
        else:
            out.append(show_c(c) + '*' + '*'.join(f))
    if len(p.terms) > 12:
        out.append('…')
    return ' + '.join(out)


def show_cond(c, depth=3):
    if isinstance(c, bool):
        return str(c)
    if depth <= 0:
        return '…'
    if c.kind == 'lt':
        return f'{show(c.fargs[0], depth)} < {show(c.fargs[1], depth)}'
    if c.kind == 'le':
        return f'{show(c.fargs[0], depth)} <= {show(c.fargs[1], depth)}'
    if c.kind == 'eq':
        return f'{show(c.fargs[0], depth)} == 0'
    if c.kind == 'not':
        return f'not ({show_cond(c.fargs[0], depth)})'
    if c.kind == 'and':
        return f'({show_cond(c.fargs[0], depth)} and {show_cond(c.fargs[1], depth)})'
    return f'{c.kind}' + str([show(x, depth) if isinstance(x, Poly) else str(x) for x in c.fargs])


_amask = {}
APPBITS = [0]
_cmask = {}


def amask(a):
    """bit set of all atoms reachable from an atom (itself included)"""
    m = _amask.get(a.id)
    if m is None:
        _amask[a.id] = 1 << a.id
        m = (1 << a.id) | xmask(a.args)
        if a.kind == 'app':
            APPBITS[0] |= 1 << a.id
        _amask[a.id] = m
    return m


def pmask(p):
    m = p.cache.get('mask')
    if m is None:
        m = 0
        for mono in p.terms:
            for a, _ in mono:
                m |= amask(ATOMS[a])
        p.cache['mask'] = m
    return m


def cbit(c):
    """own bit of an opaque condition"""
    if c.kind in ('lt', 'le', 'eq', 'and', 'not', 'isnan', 'isinf', 'or', 'ite'):
        return 0
    return 1 << atom('cond', c.id).id


def cmask(c):
    m = _cmask.get(c.id)
    if m is None:
        m = _cmask[c.id] = xmask(c.fargs) | cbit(c)
    return m


def xmask(xs):
    m = 0
    for x in xs:
        if isinstance(x, Poly):
            m |= pmask(x)
        elif isinstance(x, Cond):
            m |= cmask(x)
        elif isinstance(x, Atom):
            m |= amask(x)
        elif isinstance(x, (tuple, list, frozenset, set)):
            m |= xmask(x)
    return m


_dm = {}


def dmask(c):
    """bits of the atoms occurring directly in the polynomials compared by a condition"""
    m = _dm.get(c.id)
    if m is not None:
        return m
    m = cbit(c)
    for x in c.fargs:
        if isinstance(x, Poly):
            for mono in x.terms:
                for a, _ in mono:
                    m |= 1 << a
        elif isinstance(x, Cond):
            m |= dmask(x)
    _dm[c.id] = m
    return m
