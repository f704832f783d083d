"""C08: step sizes respect max_step, the remaining interval, and the last step ends exactly at t_bound."""
import os
from .common import *
from sa.bounds import *
from sa import poly

LEVEL = 'other'
BUDGET = 300
TECHNIQUE = 'abstract interpretation with interval and polyhedral bounds of the step size'
RULE = ('on every accepting path of a step from every generic state the step size H = |t - t_old| is bounded: the merged values are '
        'split by the conditions of the paths they come from, retried step sizes are bounded by induction over the attempts (interval '
        'analysis of the factor), and at the leaves the linear facts of the path and the negation of H <= max_step (or H <= |t_bound - t_old|) '
        'form a polyhedron that must be empty (Fourier-Motzkin). A non-empty polyhedron over quantities that are arbitrary at the beginning of '
        'a step is reported after it is confirmed without merging paths. The time at the end of a step that covers the whole remaining '
        'interval must be t_bound itself, not a rounded sum t + h.')
ASSUME = ['the smallest step (multiples of machine constants) is below max_step', 'results of user functions are finite (otherwise see C07)']


def jobs(tier):
    return [(lab, 'job', dict(cls=c, **kw), 110 if tier == 'quick' else 800) for lab, c, kw, lim in configs('quick') if lab == c]


def loop_sources(X, k):
    """merged local or attribute of a loop -> [(next value, facts)]"""
    out = {}
    seen = {}
    for l in X.R.heads[k]['loops']:
        for hs, backs in l['heads']:
            where = [('env', l['env'])] + [('inst', X.inst.a)]
            for kind, a in where:
                if a not in hs.heap:
                    continue
                for n, v in hs.o(a).d.items():
                    at = the_atom(v) if isinstance(v, Poly) else None
                    if at is None or at.kind != 'mu':
                        continue
                    for b in backs:
                        if a not in b.heap:
                            continue
                        w = b.o(a).d.get(n)
                        if isinstance(w, Poly):
                            key = (at.id, w)
                            f = dict(b.facts)
                            if key in seen:
                                g = seen[key]
                                for c in list(g):
                                    if f.get(c) != g[c]:
                                        del g[c]
                            else:
                                seen[key] = f
                                out.setdefault(at.id, []).append((w, f))
    return out


def small(p):
    """every term contains a machine constant"""
    if not p.terms:
        return False
    for m in p.terms:
        if not any(tiny(ATOMS[i]) for i, e in m):
            return False
    return True


def tiny(a):
    if a.kind == 'sym':
        return str(a.args[0]).split('.')[-1] in NEGLIGIBLE or any(x in str(a.args[0]) for x in NEGLIGIBLE)
    if a.kind == 'op' and a.args[0] in ('max', 'npmax'):
        return all(small(x) for x in a.args[1:])
    if a.kind == 'op' and a.args[0] in ('pow', 'sqrt', 'abs', 'nextafter'):
        return small(a.args[1])
    return False


def assume_small(ctx, m, p):
    if any(e > 0 and tiny(ATOMS[i]) for i, e in m):
        return [(add(p, scale(neg(MAXSTEP), Fr(1, 1000))), False)]


def free(p, stop):
    """a value made of quantities that are arbitrary at the beginning of a step, and constants"""
    for a in poly_atoms(p):
        if a.kind == 'sym' or a.id in stop or tiny(a):
            continue
        if a.kind == 'op' and a.args[0] in ('max', 'min', 'npmax', 'npmin', 'abs') and all(free(x, stop) for x in a.args[1:]):
            continue
        return False
    return True


def landing(v, ctx, P, depth=0):
    """leaves of v = t - t_bound that vanish by cancellation of a sum only"""
    gates = [a for a in poly_atoms(v) if a.kind == 'ite']
    if not gates or depth > 12:
        return []
    out = []
    a = gates[0]
    alone = all(any(i == a.id for i, e in m) for m in v.terms)
    for br in (True, False):
        q = P.split(ctx, a, br)
        if q is None:
            continue
        x = subst(v, q[1], {}, 1 << a.id)
        if not x.terms:
            if not alone:
                out.append(q[0])
            continue
        out += landing(x, q[0], P, depth + 1)
    return out


def collapse(a):
    if a.kind == 'ite' and isinstance(a.args[0], Cond) and a.args[0].kind == 'eq' and \
            poly._multiple(add(a.args[1], neg(a.args[2])), a.args[0].fargs[0]):
        return a.args[2]


def goals(X, k, h, o):
    t0, t1 = X.attr(h, 't'), X.attr(o.st, 't')
    H = mul(D, add(t1, neg(t0)))
    stop = {a.id for n, v in h.o(X.inst.a).d.items() for _, x in X.scalars(h, v) for a in walk(x) if a.kind == 'mu'}
    R = mul(D, add(TB, neg(t0)))
    loops = loop_sources(X, k)
    memo = {}
    V = subst(H, collapse, memo)
    facts = {}
    for c, b in o.st.facts.items():
        c = subst(c, collapse, memo) if isinstance(c, Cond) else c
        if not isinstance(c, bool):
            facts[c] = b
    for what, y in (('max_step', MAXSTEP), ('the distance to t_bound', R)):
        P = Prover(loops, [assume_small], stop, BUDGET)
        yield what, stop, P.le(V, y, Ctx(dict(facts), True)), V, y
    P = Prover(loops, [assume_small], stop, BUDGET)
    if H is R:
        # t ends at t_bound on the whole path: no sum can be seen any more
        return
    yield 'landing', stop, landing(add(t1, neg(TB)), Ctx(dict(o.st.facts), True), P), H, None


def job(r, cls, **cfg):
    poly.ROUNDING[0] = True
    X = Explore(cls, dense=False, **cfg)
    suspects = {}
    tier = os.environ.get('VERIF_TIER') == 'thorough'
    ks = sorted({k for k, h, o in X.good})
    for k, h, o in X.good:
        if not tier and k not in (ks[0], ks[-1]):
            continue
        for what, stop, q, H, y in goals(X, k, h, o):
            r.count('obligations')
            if what == 'landing':
                if q:
                    r.bad(f'{cls} landing', 'a step over the whole remaining interval ends at the rounded sum t + h instead of t_bound '
                          '(t can miss t_bound by a rounding error)', METHODS[cls])
                else:
                    r.good(f'state {k}: no rounded sum ends the integration')
                continue
            if not q:
                r.good(f'state {k}: step size at most {what}')
                continue
            hit = [x for x in q if x[2] == 'feasible' and free(x[0], stop)]
            if hit:
                suspects.setdefault(what, []).append((k, hit))
            for x in q[:3]:
                if not hit:
                    r.open(f'state {k}: step size {str(x[0])[:100]} not shown to be at most {what} ({x[2]})')
    if suspects:
        confirm(r, X, suspects)


def settled(x, stop):
    """no comparison on the path fixes the step size or bounds it by a quantity that is not arbitrary (such as the step size of an
    earlier attempt, which can be limited itself)"""
    own = {a.id for a in poly_atoms(x[0])}
    for c, b in flat(x[1].facts):
        if c.kind == 'eq' and b and (any(a.id in own for z in c.fargs for a in poly_atoms(z)) or not all(free(z, stop) for z in c.fargs)):
            return False            # an exceptional path
        if c.kind in ('lt', 'le') and any(a.id in own for z in c.fargs for a in poly_atoms(z)) and \
                not all(free(z, stop) for z in c.fargs):
            return False
    return True


def confirm(r, X, suspects):
    """repeat without merging paths"""
    I = X.I
    I.sharp = True
    I.budget = I.steps + 400000
    cls = X.cls
    done = set()
    for what, lst in suspects.items():
        for k, _ in lst:
            if (what, k) in done:
                continue
            done.add((what, k))
            inst, st = X.heads[k]
            I.loop_log = []
            try:
                outs = X.R.step(inst, st)
            except Exception as e:
                r.open(f'{what}: not confirmed without merging of paths ({type(e).__name__})')
                continue
            old = X.R.heads[k]['loops']
            X.R.heads[k]['loops'] = I.loop_log
            n = 0
            for o in outs:
                if o.kind not in ('ok', 'any'):
                    continue
                for w, stop, q, H, y in goals(X, k, st, o):
                    if w != what:
                        continue
                    for x in q:
                        if x[2] == 'feasible' and free(x[0], stop) and x[0].const is None and settled(x, stop):
                            n += 1
                            f = '; '.join(('' if b else 'not ') + str(c)[:70] for c, b in flat(x[1].facts)
                                          if c.kind in ('lt', 'le') and all(free(z, stop) for z in c.fargs))
                            r.bad(f'{cls} {what}', f'a step of size {show(x[0], 3)[:80]} can be taken that is larger than {what}, on the path: {f[:300]}',
                                  METHODS[cls])
            X.R.heads[k]['loops'] = old
            if not n:
                r.open(f'{what} (state {k}): not shown')
    I.sharp = False
