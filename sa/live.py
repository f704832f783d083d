"""Live local variables at loop heads (structured backward dataflow over the syntax tree)."""
import ast

LIVE = {}          # id(loop node) -> frozenset of names live at the head of the loop
_keep = []


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def targets(t):
    """names certainly assigned / expressions used by an assignment target"""
    if isinstance(t, ast.Name):
        return {t.id}, set()
    if isinstance(t, (ast.Tuple, ast.List)):
        d, u = set(), set()
        for e in t.elts:
            a, b = targets(e)
            d |= a
            u |= b
        return d, u
    if isinstance(t, ast.Starred):
        return targets(t.value)
    return set(), names(t)


class _F:
    def __init__(self):
        self.rec = {}

    def block(self, body, out, brk, cont):
        for s in reversed(body):
            out = self.stmt(s, out, brk, cont)
        return out

    def stmt(self, s, out, brk, cont):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            d, u = set(), set()
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                a, b = targets(t)
                d |= a
                u |= b
            if s.value is None:
                return out
            return (out - d) | u | names(s.value)
        if isinstance(s, ast.If):
            return names(s.test) | self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont)
        if isinstance(s, ast.While):
            rest = self.block(s.orelse, out, brk, cont)
            L = set(rest)
            while True:
                n = names(s.test) | rest | self.block(s.body, L, out, L)
                if n <= L:
                    break
                L = L | n
            self.rec[id(s)] = frozenset(L)
            return L
        if isinstance(s, (ast.For, ast.AsyncFor)):
            rest = self.block(s.orelse, out, brk, cont)
            d, u = targets(s.target)
            L = set(rest)
            while True:
                B = self.block(s.body, L, out, L)
                n = rest | (B - d) | u
                if n <= L:
                    break
                L = L | n
            self.rec[id(s)] = frozenset(L | B | d)
            return L | names(s.iter)
        if isinstance(s, ast.Return):
            return names(s.value) if s.value is not None else set()
        if isinstance(s, ast.Raise):
            return names(s)
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.With):
            u = set()
            for i in s.items:
                u |= names(i)
            return u | self.block(s.body, out, brk, cont)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return (out - {s.name}) | names(s)
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            return out
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass)):
            return out
        if isinstance(s, ast.Try):
            # record the loops inside with everything alive
            everything = names(s) | out | brk | cont
            for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                self.block(b, everything, everything, everything)
            for n in ast.walk(s):
                if isinstance(n, (ast.For, ast.While)):
                    self.rec[id(n)] = frozenset(self.rec.get(id(n), frozenset()) | everything)
            return everything
        return out | names(s)


def analyse(tree):
    _keep.append(tree)
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        a = _F()
        a.block(f.body, set(), set(), set())
        always = set()
        for n in ast.walk(f):
            if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                always |= names(n)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                always |= set(n.names)
        for k, v in a.rec.items():
            # a loop of a nested function is recorded by the nested function itself
            LIVE[k] = v | always if k not in LIVE else LIVE[k] & (v | always)
