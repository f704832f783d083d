"""Ranges of merged scalar values: least fixed point (with widening) over the sources of every merge."""
from .poly import *
from .iv import Ctx, INFI, DEN

STEPS_LO = (1.0, 0.5, 0.2, 0.1, 0.01, DEN, 0.0, -1.0)
STEPS_HI = (1.0, 2.0, 4.0, 5.0, 10.0)


def scalar_mu(a):
    return a.kind == 'mu' and not (a.info and (a.info.get('axis') or a.info.get('unk') or a.info.get('matrix')))


def parts(x):
    """scalar mus occurring in a value (not looking into their sources)"""
    seen = set()
    out = set()
    stack = [x]
    while stack:
        x = stack.pop()
        if isinstance(x, Poly):
            if ('p', x.id) not in seen:
                seen.add(('p', x.id))
                stack.extend(poly_atoms(x))
        elif isinstance(x, Atom):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.kind == 'mu':
                if scalar_mu(x):
                    out.add(x.id)
                continue
            if x.kind == 'app' or x.kind == 'op' and x.args[0] in ('dot', 'solve', 'lu', 'mm', 'mv'):
                continue
            stack.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
        elif hasattr(x, 'fargs'):
            if ('f', x.id) not in seen:
                seen.add(('f', x.id))
                stack.extend(x.fargs)
    return out


def widen(lo, hi, l, h, hard):
    if l < lo:
        lo = l if not hard else max([s for s in STEPS_LO if s <= l] or [-INFI])
    if h > hi:
        hi = h if not hard else min([s for s in STEPS_HI if s >= h] or [INFI])
    return lo, hi


def refine(values, af=True, rounds=14):
    """-> table of ranges for the scalar merges behind the values; to be used as Ctx.tab"""
    deps, srcs = {}, {}
    todo = set()
    for v in values:
        todo |= parts(v)
    while todo:
        i = todo.pop()
        if i in srcs:
            continue
        srcs[i] = [s for s in MU_SOURCES.get(i, ()) if isinstance(s, Poly)]
        for s in srcs[i]:
            if s not in deps:
                deps[s] = parts(s)
                todo |= deps[s] - set(srcs)
    tab = {}
    free = {i for i in srcs if not srcs[i]}
    old = Ctx.tab
    try:
        stable = False
        for r in range(rounds + 6):
            Ctx.tab = tab
            ctx = Ctx({}, af)
            new = dict(tab)
            for i in srcs:
                if i in free:
                    continue
                cur = tab.get(i)
                for s in srcs[i]:
                    if any(j not in tab and j not in free for j in deps[s]):
                        continue
                    l, h, n = ctx.iv(s)
                    if cur is None:
                        cur = (l, h, n)
                    elif l < cur[0] or h > cur[1] or n and not cur[2]:
                        cur = widen(cur[0], cur[1], l, h, r > 3) + (cur[2] or n,)
                        if r > rounds:
                            cur = (-INFI if l < cur[0] or r > rounds + 2 else cur[0], INFI, True)
                if cur is not None:
                    new[i] = cur
            if new == tab:
                stable = True
                break
            tab = new
        if not stable:
            return {}
    finally:
        Ctx.tab = old
    return tab
