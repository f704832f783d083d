"""Case analysis of merged values: split on the conditions of gated merges until published values are gate free."""
from .poly import *


def active(values, gates=True):
    """atoms in value positions (conditions of merges excluded); gates=False: not below merges either"""
    seen = set()
    out = {}
    stack = list(values)
    while stack:
        x = stack.pop()
        if isinstance(x, Poly):
            if ('p', x.id) in seen:
                continue
            seen.add(('p', x.id))
            stack.extend(poly_atoms(x))
        elif isinstance(x, Atom):
            if x.id in out:
                continue
            out[x.id] = x
            if x.kind == 'ite':
                if gates:
                    stack.extend(x.args[1:])
            else:
                stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return out


def vectorial(x):
    """the value depends on the component"""
    for a in active([x]).values():
        if a.kind == 'app' or (a.info and a.info.get('axis')):
            return True
    return False


def cases(values, st, limit=64, scalar=(), prune=None):
    """-> list of (conditions {cond: bool}, values) without merges of component dependent values (and of the listed values)"""
    out = []
    todo = [({}, list(values), st)]
    while todo:
        conds, vals, s = todo.pop()
        if prune is not None and prune(vals):
            continue
        pick = None
        for a in active(vals).values():
            if a.kind == 'ite' and (vectorial(of_atom(a))):
                pick = a
                break
        if pick is None:
            for i in scalar:
                t = vals[i].terms
                if len(t) > 1:
                    for a in poly_atoms(vals[i]):
                        if a.kind == 'ite':
                            pick = a
            if pick is None:
                out.append((conds, vals, s))
                continue
        if len(out) + len(todo) > limit:
            raise OverflowError('too many cases')
        c = pick.args[0]
        for b in (True, False):
            s2 = s.fork()
            if not s2.learn(c, b):
                continue
            memo = {}
            mask = 0
            for a in active(vals).values():
                if a.kind == 'ite' and a.args[0] is c:
                    mask |= 1 << a.id

            def f(at):
                if at.kind == 'ite' and at.args[0] is c:
                    v = at.args[1] if b else at.args[2]
                    return subst(v, f, memo, mask)
                return None
            nv = [subst(v, f, memo, mask) for v in vals]
            todo.append((dict(conds, **{}) | {c: b}, nv, s2))
    return out
