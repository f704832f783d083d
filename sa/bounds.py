"""Upper bounds of scalar values under path facts: structural rules, and emptiness of polyhedra at the leaves."""
from .poly import *
from .iv import Ctx, INFI, DEN
from .interp import MERGE_FACTS, MU_FACTS

NEGLIGIBLE = ('epsneg', 'eps', 'tiny', 'smallest_normal')


def flat(facts):
    """elementary facts"""
    out = []
    todo = list(facts.items())
    while todo:
        c, v = todo.pop()
        if not isinstance(c, Cond):
            continue
        if c.kind == 'not':
            todo.append((c.fargs[0], not v))
        elif c.kind == 'and' and v:
            todo += [(x, True) for x in c.fargs]
        elif c.kind == 'or' and not v:
            todo += [(x, False) for x in c.fargs]
        else:
            out.append((c, v))
    return out


def lin(p):
    """linear form over monomials: ({monomial: coefficient}, constant)"""
    d = {m: Fr(c) for m, c in p.terms.items() if m != ()}
    return d, Fr(p.terms.get((), 0))


INFATOM, NANATOM = the_atom(INF), the_atom(NAN)


class Sys:
    """constraints sum(c*x) + k <= 0 (strict: < 0)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rows = []
        self.vars = {}
        self.todo = []

    def positive(self, p, depth=0):
        lo = self.ctx.iv(p)[0]
        if lo >= DEN:
            return True
        a = the_atom(p)
        if depth > 3:
            return False
        if a is not None and a.kind == 'op':
            if a.args[0] in ('min', 'npmin'):
                return all(self.positive(x, depth + 1) for x in a.args[1:])
            if a.args[0] in ('max', 'npmax'):
                return any(self.positive(x, depth + 1) for x in a.args[1:])
        for c, v in flat(self.ctx.facts):
            if c.kind in ('lt', 'le'):
                x, y = c.fargs
                if v and c.kind == 'lt' and y is p and self.ctx.iv(x)[0] >= 0:
                    return True
                if v and y is p and self.positive(x, depth + 1):
                    return True
                if not v and x is p and self.positive(y, depth + 1):
                    return True
        return False

    def add(self, p, strict=False):
        if any(a in (INFATOM, NANATOM) for a in poly_atoms(p)):
            return
        den = {}
        for m in p.terms:
            for i, e in m:
                if e < 0:
                    den[i] = min(e, den.get(i, 0))
        den = {i: e for i, e in den.items() if self.positive(of_atom(ATOMS[i]))}
        if den:
            p = mul(p, mk({tuple(sorted((i, -e) for i, e in den.items())): Fr(1)}))     # positive denominators
        d, k = lin(p)
        self.rows.append((d, k, strict))
        for m in d:
            if m not in self.vars:
                self.vars[m] = True
                self.todo.append(m)

    def facts(self):
        for c, v in flat(self.ctx.facts):
            if c.kind in ('lt', 'le'):
                a, b = c.fargs
                if INF in (a, b) or neg(INF) in (a, b) or NAN in (a, b):
                    continue
                if v:
                    self.add(add(a, neg(b)), c.kind == 'lt')
                elif not (self.ctx.iv(a)[2] or self.ctx.iv(b)[2]):
                    self.add(add(b, neg(a)), c.kind == 'le')
            elif c.kind == 'eq' and v:
                self.add(c.fargs[0])
                self.add(neg(c.fargs[0]))

    def close(self, extra=()):
        """definitional constraints of the monomials that occur"""
        n = 0
        while self.todo and n < 60:
            m = self.todo.pop()
            n += 1
            p = mk({m: Fr(1)})
            lo, hi, nan = self.ctx.iv(p)
            if lo >= DEN:
                self.rows.append(({m: Fr(-1)}, Fr(lo) if lo > 1e-300 else Fr(0), lo <= 1e-300))
            elif lo > -INFI:
                self.rows.append(({m: Fr(-1)}, Fr(lo), False))
            if hi < INFI:
                self.rows.append(({m: Fr(1)}, -Fr(hi), False))
            if len(m) == 1 and m[0][1] == 1:
                a = ATOMS[m[0][0]]
                if a.kind == 'op' and a.args[0] in ('max', 'npmax'):
                    for x in a.args[1:]:
                        self.add(add(x, neg(p)))
                elif a.kind == 'op' and a.args[0] in ('min', 'npmin'):
                    for x in a.args[1:]:
                        self.add(add(p, neg(x)))
                elif a.kind == 'op' and a.args[0] == 'abs':
                    self.add(add(a.args[1], neg(p)))
                    self.add(add(neg(a.args[1]), neg(p)))
            for q in extra:
                r = q(self.ctx, m, p)
                for x, strict in r or ():
                    self.add(x, strict)

    def cases(self, depth=0, done=()):
        """emptiness, with the definition of minima and maxima by cases"""
        e = self.empty()
        if e is True or depth > 5:
            return e
        for m in list(self.vars):
            if m in done or len(m) != 1 or m[0][1] != 1:
                continue
            a = ATOMS[m[0][0]]
            if a.kind == 'op' and a.args[0] in ('max', 'min', 'npmax', 'npmin'):
                res = []
                for x in a.args[1:]:
                    t = Sys(self.ctx)
                    t.rows, t.vars = list(self.rows), dict(self.vars)
                    d = add(x, neg(mk({m: Fr(1)})))
                    t.add(d)
                    t.add(neg(d))
                    r = t.cases(depth + 1, done + (m,))
                    if r is False:
                        return False
                    res.append(r)
                return True if all(r is True for r in res) else None
        return e

    def empty(self, limit=4000):
        """True: no point satisfies the constraints; False: some (real) point does; None: gave up"""
        rows = self.rows
        vs = list(self.vars)
        while True:
            for d, k, s in rows:
                if not d and (k > 0 or s and k >= 0):
                    return True
            rows = [r for r in rows if r[0]]
            if not rows:
                return False
            cnt = {}
            for d, k, s in rows:
                for m, c in d.items():
                    a = cnt.setdefault(m, [0, 0])
                    a[c > 0] += 1
            m = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
            up = [r for r in rows if r[0].get(m, 0) > 0]
            dn = [r for r in rows if r[0].get(m, 0) < 0]
            rows = [r for r in rows if m not in r[0]]
            seen = set()
            for d, k, s in up:
                for e, l, t in dn:
                    f, g = 1 / d[m], -1 / e[m]
                    z = {x: c * f for x, c in d.items()}
                    for x, c in e.items():
                        z[x] = z.get(x, 0) + c * g
                    z = {x: c for x, c in z.items() if c}
                    row = (z, k * f + l * g, s or t)
                    key = (frozenset(z.items()), row[1], row[2])
                    if key not in seen:
                        seen.add(key)
                        rows.append(row)
            if len(rows) > limit:
                return None


class Prover:
    """prove v <= y for values v on paths"""

    def __init__(self, loops=(), assume=(), stop=(), budget=3000):
        self.stop = stop            # merged values that are arbitrary
        self.quick = 0
        self.loops = loops          # merged value -> [(alternative, facts)]
        self.extra = list(assume)
        self.budget = budget
        self.open = []              # (value, context) of undecided leaves
        self.pending = set()
        self.memo = {}

    def sources(self, a):
        out = list(self.loops.get(a.id, ()))
        have = {s for s, f in out}
        for s in MU_SOURCES.get(a.id, ()):
            if isinstance(s, Poly) and s not in have:
                out.append((s, MU_FACTS.get((a.id, s), {})))
        return out

    def le(self, v, y, ctx, depth=0):
        """-> [] if proved, else the leaves (value, context, status, ...) that are not"""
        self.budget -= 1
        if self.budget < 0 or depth > 60:
            return [(v, ctx, 'budget')]
        key = (v, y, ctx)
        if key in self.memo and (self.quick or self.memo[key][1]):
            return self.memo[key][0]
        r = self._le(v, y, ctx, depth)
        self.memo[key] = (r, not self.quick or not r)
        return r

    def can(self, v, y, ctx, depth):
        """is v <= y proved?"""
        self.quick += 1
        r = not self.le(v, y, ctx, depth + 1)
        self.quick -= 1
        return r

    def _le(self, v, y, ctx, depth):
        d = ctx.iv(add(v, neg(y)))
        if d[1] <= 0:
            return []
        if any(c.kind == 'eq' and b and len(c.fargs[0].terms) == 2 and INFATOM in poly_atoms(c.fargs[0]) and
               the_atom(y) in poly_atoms(c.fargs[0]) for c, b in ctx.facts.items() if isinstance(c, Cond)):
            return []                       # y is infinite on this path
        gates = []
        for p in (v, y):
            gates += [a for a in poly_atoms(p) if a.kind == 'ite']
        if gates:
            a = gates[0]
            out = []
            for br in (True, False):
                q = self.split(ctx, a, br)
                if q is None:
                    continue
                out += self.le(subst(v, q[1], {}, 1 << a.id), subst(y, q[1], {}, 1 << a.id), q[0], depth + 1)
                if out and self.quick:
                    break
            return out
        a = the_atom(v)
        if a is not None and a.kind == 'op':
            if a.args[0] in ('min', 'npmin'):
                for x in a.args[1:]:
                    if self.can(x, y, ctx, depth):
                        return []
                return self.leaf(v, y, ctx)
            if a.args[0] in ('max', 'npmax'):
                return [r for x in a.args[1:] for r in self.le(x, y, ctx, depth + 1)]
            if a.args[0] == 'abs':
                return [r for x in (a.args[1], neg(a.args[1])) for r in self.le(x, y, ctx, depth + 1)]
        # a merged value: all its sources (induction over the iterations)
        for m, c in v.terms.items():
            for i, e in m:
                a = ATOMS[i]
                if len(v.terms) == 1 and e == 1 and a.kind == 'mu' and i not in self.stop and c in (1, -1) and \
                        all(j == i or (ATOMS[j].info or {}).get('sign') for j, _ in m):
                    k = (v, y)
                    if k in self.pending:
                        return []
                    src = self.sources(a)
                    if src:
                        if not self.leaf(v, y, ctx):
                            return []
                        self.pending.add(k)
                        out = []
                        for s, f in src:
                            c2 = ctx
                            for g, b in f.items():
                                c2 = self.learn(c2, g, b)
                                if c2 is None:
                                    break
                            if c2 is None:
                                continue
                            w = subst(v, lambda z: s if z.id == i else None, {}, 1 << i)
                            out += self.le(w, y, c2, depth + 1)
                            if out and self.quick:
                                break
                        return out
        # a monomial with factors at most one
        if len(v.terms) == 1:
            (m, c), = v.terms.items()
            if len(m) > 1 or c != 1:
                red = []
                for i, e in m:
                    lo, hi, nan = ctx.iv(mk({((i, e),): Fr(1)}))
                    if not (0 <= lo and hi <= 1):
                        red.append((i, e))
                if len(red) < len(m) or 0 < c < 1:
                    w = mk({tuple(red): Fr(1) if 0 < c <= 1 else c})
                    if w is not v and ctx.iv(w)[0] >= 0 and self.can(w, y, ctx, depth):
                        return []
                # products of factors that are bounded together
                for i, e in m:
                    if ATOMS[i].kind != 'mu' and ATOMS[i].kind != 'sym':
                        continue
                    w = mk({((i, e),): Fr(1)})
                    rest = mk({tuple(x for x in m if x != (i, e)): c})
                    lo, hi, nan = ctx.iv(rest)
                    if 0 <= lo and hi <= 1 and ctx.iv(w)[0] >= 0 and w is not v and self.can(w, y, ctx, depth):
                        return []
                # a factor that is itself a choice
                for i, e in m:
                    at = ATOMS[i]
                    if e == 1 and at.kind == 'op' and at.args[0] in ('max', 'min', 'npmax', 'npmin'):
                        rest = mk({tuple(x for x in m if x != (i, e)): c})
                        if ctx.iv(rest)[0] >= 0:
                            if 'max' in at.args[0]:
                                return [r for x in at.args[1:] for r in self.le(mul(rest, x), y, ctx, depth + 1)]
                            if any(self.can(mul(rest, x), y, ctx, depth) for x in at.args[1:]):
                                return []
        return self.leaf(v, y, ctx)

    def learn(self, ctx, c, b):
        t = ctx.truth(c)
        if t is not None:
            return ctx if t == b else None
        return ctx.extend(c, b)

    def assume(self, ctx, a, br):
        c = a.args[0]
        if isinstance(c, Cond):
            ctx = self.learn(ctx, c, br)
            if ctx is None:
                return None
        for d, b in MERGE_FACTS.get((a.id, br), {}).items():
            ctx = self.learn(ctx, d, b)
            if ctx is None:
                return None
        return ctx

    def split(self, ctx, a, br):
        """context of one branch of a choice, with the choice resolved in the facts -> (context, replacement) or None"""
        ctx = self.assume(ctx, a, br)
        if ctx is None:
            return None
        x = a.args[1] if br else a.args[2]
        memo = {}
        f = (lambda z: x if z.id == a.id else None)
        bit = 1 << a.id
        if any(cmask(d) & bit for d in ctx.facts if isinstance(d, Cond)):
            facts = {}
            for d, e in ctx.facts.items():
                if isinstance(d, Cond):
                    d = subst(d, f, memo, bit)
                if isinstance(d, bool):
                    if d != e:
                        return None
                    continue
                if facts.get(d, e) != e:
                    return None
                facts[d] = e
            ctx = Ctx(facts, ctx.af)
            for d, e in facts.items():
                if d.kind in ('lt', 'le', 'eq') and Ctx({}, ctx.af).truth(d) == (not e):
                    return None
        return ctx, f

    def leaf(self, v, y, ctx, depth=0):
        # choices inside the facts
        if depth < 10:
            for c, b in flat(ctx.facts):
                if c.kind in ('lt', 'le', 'eq'):
                    at = [x for p in c.fargs for x in poly_atoms(p) if x.kind == 'ite']
                    if not at:
                        continue
                    out = []
                    for br in (True, False):
                        q = self.split(ctx, at[0], br)
                        if q is None:
                            continue
                        out += self.leaf(subst(v, q[1], {}, 1 << at[0].id), subst(y, q[1], {}, 1 << at[0].id), q[0], depth + 1)
                    return out
        s = Sys(ctx)
        s.add(add(y, neg(v)), True)
        s.facts()
        s.close(self.extra)
        e = s.cases()
        if e is True:
            return []
        if e is False:
            mine = {a.id for z in (v, y) for a in walk(z)}
            for m in s.vars:
                if (len([1 for i, x in m if not (ATOMS[i].info or {}).get('sign')]) > 1 or any(x != 1 for i, x in m)) and \
                        not any(a.kind == 'app' or a.kind == 'sym' and str(a.args[0]).split('.')[-1] in NEGLIGIBLE for a in walk(mk({m: Fr(1)}))) and any(a.id in mine for a in walk(mk({m: Fr(1)})) if not (a.info or {}).get('sign')):
                    return [(v, ctx, 'nonlinear', s)]
        return [(v, ctx, 'feasible' if e is False else 'gave up', s)]
