"""C07: step() always ends and never accepts a non-finite error estimate."""
from .common import *
from sa.iv import Ctx
from sa.bounds import flat

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation: ranking functions of the attempt loops, NaN propagation in path conditions'
RULE = ('every while loop of a step is analysed at its generic head: on every path back to the head a ranking quantity (the step size) '
        'must be multiplied by a factor proved to be below 1 (interval analysis under the path conditions), or stay unchanged while a '
        'one-time flag (Jacobian refresh) is set; the loop is left when the quantity is below a bound. The same is decided for each '
        'scenario in which one evaluation of the user function returns NaN: NaN is propagated through norms, conditions (comparisons are '
        'false) and min/max with the semantics of Python and NumPy. In such a scenario no path accepts the step, and the next step size '
        'is not NaN. An alarm is raised if on a feasible path the factor is NaN, or not below 1, for certain.')
ASSUME = ['the step size at the head of the loop is positive and finite', 'Jacobian evaluations and LU factorisations are finite',
          'for loops over a range end']
METH = ('max', 'min', 'npmax', 'npmin', 'pow', 'inv', 'abs', 'sqrt', 'floor', 'exp10', 'real')


def jobs(tier):
    return [(c, 'job', dict(cls=c, tier=tier), 110 if tier == 'quick' else 400) for c in HEAVY + FAST]


class NaNs:
    """consequences of: one evaluation of the user function is NaN"""

    def __init__(self, src):
        self.src = src
        self.memo = {}
        self.smemo = {}

    def dep(self, a):
        r = self.memo.get(a.id)
        if r is None:
            r = self.memo[a.id] = any(x.id == self.src for x in walk(a))
        return r

    def rew(self, p):
        """value with the choices resolved; NAN if it is NaN for certain"""
        r = self.smemo.get(p)
        if r is None:
            r = ZERO
            for m, c in p.terms.items():
                t = num(c)
                for i, e in m:
                    q = self.ratom(ATOMS[i])
                    if q is NAN:
                        t = NAN
                        break
                    t = mul(t, power(q, Fr(e)))
                if t is NAN:
                    r = NAN
                    break
                r = add(r, t)
            self.smemo[p] = r
        return r

    def ratom(self, a):
        if not self.dep(a):
            return of_atom(a)
        if a.id == self.src:
            return NAN
        k = ('a', a.id)
        r = self.smemo.get(k)
        if r is None:
            r = self.smemo[k] = self._ratom(a)
        return r

    def _ratom(self, a):
        if a.kind == 'ite':
            t = self.truth(a.args[0])
            if t is not None:
                return self.rew(a.args[1] if t else a.args[2])
            x, y = self.rew(a.args[1]), self.rew(a.args[2])
            if x is y:
                return x
            return ite(a.args[0], x, y)
        if a.kind == 'op':
            n, ar = a.args[0], [self.rew(x) if isinstance(x, Poly) else x for x in a.args[1:]]
            if n in ('max', 'min') and len(ar) == 2:
                # Python: max(a, b) is b if b > a else a
                if ar[0] is NAN:
                    return NAN
                if ar[1] is NAN:
                    return ar[0]
            elif NAN in ar:
                return NAN
        else:
            ar = [self.rew(x) if isinstance(x, Poly) else x for x in a.args]
        for x in ar:
            if isinstance(x, tuple) and any(isinstance(y, Poly) and self.rew(y) is NAN for y in x):
                return NAN
        if a.kind != 'op' and NAN in ar:
            return NAN
        if a.kind == 'op' and a.args[0] in METH:
            z = atom('op', a.args[0], *ar)
            if z.info is None:
                z.info = Info(a.info or {})
            return of_atom(z)
        return of_atom(a)

    def isnan(self, p):
        return p is NAN or any(x is NANA for x in poly_atoms(p))

    def truth(self, c, done=False):
        if isinstance(c, bool):
            return c
        k = c.kind
        if k == 'not':
            v = self.truth(c.fargs[0], done)
            return None if v is None else not v
        if k in ('and', 'or'):
            vs = [self.truth(x, done) for x in c.fargs]
            if (k == 'or') in vs:
                return k == 'or'
            return (k == 'and') if all(v is not None for v in vs) else None
        ps = [x for x in c.fargs if isinstance(x, Poly)]
        if k in ('lt', 'le', 'eq', 'isnan', 'isinf', 'isfinite'):
            n = any(self.isnan(self.rew(x)) for x in ps)
            return (k == 'isnan') if n else None
        if k in ('all', 'any'):
            for x in c.fargs:
                for y in x if isinstance(x, tuple) else (x,):
                    if isinstance(y, Cond):
                        v = self.truth(y, done)
                        if v is not None and v == (k == 'any'):
                            return v
        return None


NANA = the_atom(NAN)


def evals(facts, more=()):
    """evaluations of the user function that the conditions of a path depend on"""
    out = {}
    for c in list(facts) + list(more):
        for a in walk(c):
            if a.kind == 'app' and a.args[0] == 'F':
                out[a.id] = a
    return out


def feasible(facts, z):
    return all(z.truth(c) in (None, b) for c, b in facts.items() if isinstance(c, (Cond, bool)))


def factor(w, v, facts, z=None):
    """-> 'dec', 'same', 'bad' (for certain), '?', with a text"""
    if w is v:
        return 'same', ''
    q = mul(w, inv(v))
    if z is not None:
        q = z.rew(q)
        if z.isnan(q):
            return 'bad', 'the step size becomes NaN'
        new = {}
        for c, b in facts.items():
            if isinstance(c, Cond) and c.kind in ('lt', 'le') and any(z.dep(a) for a in walk(c)):
                x, y = z.rew(c.fargs[0]), z.rew(c.fargs[1])
                if z.isnan(x) or z.isnan(y):
                    continue
                c = cond(c.kind, x, y)
                if isinstance(c, bool):
                    continue
            elif any(z.dep(a) and z.ratom(a) is NAN for a in walk(c)):
                continue
            new[c] = b
        facts = new
    lo, hi, nan = Ctx(dict(facts), True).iv(q)
    if hi < 1:
        return 'dec', f'{hi:.3g}'
    if lo >= 1:
        return 'bad', 'the step size is not reduced'
    return '?', f'factor in [{lo:.3g}, {hi:.3g}]'


def variables(l, X, hs, backs):
    """numbers that a loop changes: name -> (head value, [back value])"""
    out = {}
    for kind, a in (('', l['env']), ('self.', X.inst.a)):
        if a not in hs.heap:
            continue
        for n, v in hs.o(a).d.items():
            if isinstance(v, Poly) and v.const is None:
                ws = [b.o(a).d.get(n) if a in b.heap else None for b in backs]
                if all(isinstance(w, Poly) for w in ws) and any(w is not v for w in ws):
                    out[kind + n] = (v, ws)
    return out


def flagged(l, X, hs, b):
    """a flag that is set for the first time on this path"""
    for a in (l['env'], X.inst.a):
        if a not in hs.heap or a not in b.heap:
            continue
        for n, v in hs.o(a).d.items():
            w = b.o(a).d.get(n)
            if n[0] == '$':
                continue
            if w is True and v is not True:
                if v is False or isinstance(v, Cond) and (b.facts.get(v) is False or any(c is v and not t for c, t in flat(b.facts))):
                    return n
    return None


def job(r, cls, tier='quick', **cfg):
    X = Explore(cls, dense=False, **cfg)
    loops = {}
    for k in range(len(X.heads)):
        for l in X.R.heads[k]['loops']:
            if l['kind'] == 'While' and l['mod'][0].startswith('extensisq'):
                loops.setdefault((l['mod'], l['line']), []).append((k, l))
    ends = sorted({k for k in range(len(X.heads))})
    for (mod, line), ls in loops.items():
        where = f'{mod[0].replace(".", "/")}.py:{mod[1]}:{line}'
        for k, l in ls:
            if tier == 'quick' and k not in (ends[0], ends[-1]):
                continue
            loop(r, X, cls, mod, where, k, l)
    if cls in FAST or tier != 'quick':
        accept(r, X, cls)


def loop(r, X, cls, mod, where, k, l):
    for (hs, backs), exits in zip(l['heads'], l['exits']):
        if not backs:
            r.good(f'{where}: no repetition from state {k}')
            continue
        r.count('loop heads')
        vs = variables(l, X, hs, backs)
        for j, b in enumerate(backs):
            r.count('repetitions')
            flag = flagged(l, X, hs, b)
            tested = {n: True for n, (v, ws) in vs.items() if steplike(v, b) and bounded(b, v, ws[j])}
            if not tested and not flag:
                # there must be an end of the reductions
                if any(mentions(c, vs, j) for c, t in flat(b.facts)) or not certain(b.facts, None):
                    r.open(f'{where} state {k} repetition {j}: lower bound not recognised')
                else:
                    r.bad(f'{mod[0]}:{mod[1]} bound', f'{cls}: an attempt is repeated without a test of the step size against a minimum', where)
                continue
            sc = [(None, None)] + [(a, NaNs(i)) for i, a in sorted(evals(b.facts, [vs[n][1][j] for n in tested]).items())]
            ok = 0
            seen = set()
            tried = [x for n, x in b.o(l['env']).d.items() if n in ('h', 'absh', 'h_abs') and isinstance(x, Poly) and x.const is None] \
                if l['env'] in b.heap else []
            for a, z in sc:
                if z is not None and not feasible(b.facts, z):
                    continue
                res = {}
                for n, q in tested.items():
                    v, ws = vs[n]
                    f = [factor(ws[j], v, b.facts, z)]
                    if f[0][0] not in ('dec', 'same'):
                        f += [factor(ws[j], absv(x), b.facts, z) for x in tried if x is not ws[j]]
                    f.sort(key=lambda x: ('dec', '?', 'bad', 'same').index(x[0]))
                    res[n] = f[0]
                what = 'finite values' if z is None else 'NaN from the user function'
                if flag or any(s == 'dec' for s, t in res.values()):
                    ok += 1
                    continue
                key = (what, tuple(sorted(res.items())))
                if key in seen:
                    continue
                seen.add(key)
                if all(s in ('bad', 'same') for s, t in res.values()) and certain(b.facts, z) and \
                        (z is None or not any(feasible(x.facts, z) and all(b.facts.get(c) in (None, t) for c, t in x.facts.items()) for x in exits)):
                    t = '; '.join(sorted({f'{n}: {t}' for n, (s, t) in res.items() if s == 'bad'})) or 'nothing is reduced'
                    r.bad(f'{mod[0]}:{mod[1]} repetition', f'{cls}: an attempt is repeated without end ({what}): {t}', where)
                else:
                    r.open(f'{where} state {k} repetition {j} ({what}): ' + '; '.join(f'{n} {s} {t}' for n, (s, t) in sorted(res.items()))[:150])
            if ok:
                r.good(f'{where} state {k} repetition {j}: decreasing in {ok} scenarios')


def certain(facts, z):
    """no condition that the analysis could not model or decide is on the path"""
    fl = list(flat(facts))
    if any(c.kind in ('opq', 'opqv', 'isinst') for c, t in fl):
        return False
    return z is None or all(z.truth(c) is not None or not any(z.dep(a) and z.ratom(a) is NAN for a in walk(c)) for c, t in fl)


def mentions(c, vs, j):
    return any(isinstance(x, Poly) and any(the_atom(v) in poly_atoms(x) for v, ws in vs.values() if the_atom(v) is not None) for x in c.fargs)


def steplike(v, b):
    """the time of an evaluation of the user function depends on the number"""
    at = poly_atoms(v)
    if not at:
        return False
    for e in b.events():
        if e[0] == 'ucall' and e[1] == 'F' and isinstance(e[3], Poly):
            w = {x.id for x in walk(e[3])}
            if all(x.id in w for x in at):
                return True
    return False


def bounded(b, v, w):
    """the path has a condition  q >= bound > 0  for a number that is reduced"""
    c0 = None
    for c, t in flat(b.facts):
        if c.kind in ('lt', 'le'):
            x, y = c.fargs if not t else c.fargs[::-1]
            # x >= y
            if not x.terms or not y.terms:
                continue
            for q in (v, w, absv(v), absv(w)):
                if x is q or q.terms and mul(x, inv(q)).const is not None:
                    c0 = c0 or Ctx(dict(b.facts), True)
                    if c0.iv(y)[0] > 0:
                        return True
    return False


def accept(r, X, cls):
    """no step is accepted if an evaluation that enters the error test is NaN"""
    n = 0
    for k, h, o in X.paths(few=True):
        if o.kind not in ('ok', 'any'):
            continue
        r.count('accepting paths')
        cells = X.cells(o.st, X.attr(o.st, 'y'))
        # evaluations of the accepted attempt: the published solution depends on them
        ev = evals([tuple(cells.values())]) if cells else {}
        for i, a in sorted(ev.items()):
            z = NaNs(i)
            n += 1
            if feasible(o.st.facts, z):
                if tests(o.st.facts, z):
                    r.bad(f'{cls} accepts NaN', f'a step is accepted although an evaluation is NaN ({str(a)[:80]}): no comparison of the path fails',
                          METHODS[cls])
                else:
                    r.open(f'state {k}: acceptance with NaN not decided')
            else:
                r.count('rejected scenarios')
    if n:
        r.good(f'{n} NaN scenarios of accepted steps considered')
    else:
        r.open('no error test seen on the accepting paths')


def tests(facts, z):
    """there are conditions that see NaN, and all of them are decided by it"""
    n = 0
    for c, b in flat(facts):
        if c.kind in ('lt', 'le', 'isnan', 'eq', 'isfinite') and z.truth(c) is not None:
            n += 1
        elif any(z.dep(a) for a in walk(c)):
            return False
    return n > 0
