"""Shared exploration: generic states, steps and dense outputs of one solver class."""
import gc
import os
import sys
from .poly import *
from .drive import *
from .interp import Ref, Arr, HO, St

sys.setrecursionlimit(30000)
REPO = os.environ.get('VERIF_REPO', '/repo')


def flow(root, stop=frozenset(), masks=None):
    """atoms reachable from a value, also through the sources of merged values, but not beyond the atoms in stop"""
    seen = set()
    stack = [root]
    out = {}
    while stack:
        x = stack.pop()
        if isinstance(x, Poly):
            if ('p', x.id) in seen:
                continue
            seen.add(('p', x.id))
            stack.extend(poly_atoms(x))
        elif isinstance(x, Atom):
            if x.id in out:
                continue
            out[x.id] = x
            if x.id in stop:
                continue
            stack.extend(x.args)
            if x.kind == 'mu':
                stack.extend(MU_SOURCES.get(x.id, ()))
        elif isinstance(x, (tuple, list, frozenset, set)):
            stack.extend(x)
        elif hasattr(x, 'fargs'):
            if ('f', x.id) in seen:
                continue
            seen.add(('f', x.id))
            stack.extend(x.fargs)
    return out


def fresh_log(st):
    st = st.fork()
    st.ev = None
    return st


class Explore:
    def __init__(self, cls, dense=True, evaluate=False, second=False, **cfg):
        gc.set_threshold(200000, 50, 100)
        opts = dict(cfg.pop('opts', {}))
        if cls in RK + RKN and 'nfev_stiff_detect' not in opts:
            opts['nfev_stiff_detect'] = ZERO
        opts = {k: v for k, v in opts.items() if v is not None}
        self.cls = cls
        self.R = R = Run(cls, repo=REPO, opts=opts, **cfg)
        self.I, self.lib = R.I, R.lib
        self.inits = R.construct()
        self.ok = [o for o in self.inits if o.kind == 'ok']
        if not self.ok:
            raise AnalysisError(f'{cls}: no successful construction: '
                                f'{[(o.exc.name, o.exc.args, o.site) for o in self.inits if o.exc]}')
        self.inst = self.ok[0].val
        self.heads = R.generic(self.inits)
        if not self.heads:
            raise AnalysisError(f'{cls}: no generic state')
        self.steps = []          # (head index, head state, Out)
        for k, (inst, st) in enumerate(self.heads):
            for o in R.heads[k]['outs']:
                self.steps.append((k, st, o))
        self.good = [(k, h, o) for k, h, o in self.steps if o.kind in ('ok', 'any')]
        self.dense = []          # (k, head, step out, dense out)
        if dense:
            for k, h, o in self.good:
                s = fresh_log(o.st)
                for d in R.call_method(inst, 'dense_output', [], s):
                    self.dense.append((k, h, o, d))

    def paths(self, few=False):
        """step outcomes with the exits of the attempt loop kept apart (all facts of the path retained);
        few: from the initial and the most general state only"""
        if not hasattr(self, '_paths'):
            self._paths = []
            self.I.split = True
            for k, (inst, st) in enumerate(self.heads):
                if few and 0 < k < len(self.heads) - 1:
                    continue
                log = self.I.loop_log
                self._paths += [(k, st, o) for o in self.R.step(inst, st)]
            self.I.split = False
        return self._paths

    # -- data flow between the attributes of the solver -----------------
    def scalars(self, st, v):
        """(cell key, value number) of the numbers held by a value (containers and arrays included)"""
        out = []
        seen = set()

        def go(v, key):
            if isinstance(v, Poly):
                out.append((key, v))
            elif isinstance(v, Arr):
                if v.b in seen:
                    return
                seen.add(v.b)
                o = st.heap.get(v.b)
                if o is not None:
                    for p, x in o.d.items():
                        if isinstance(x, Poly):
                            out.append((('buf', v.b, p), x))
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    go(x, key + (i,))
            elif isinstance(v, Ref):
                o = st.heap.get(v.a)
                if v.a in seen or o is None:
                    return
                seen.add(v.a)
                if o.kind in ('list', 'dict', 'set'):
                    for i, x in (o.d.items() if isinstance(o.d, dict) else enumerate(o.d)):
                        go(x, key + (str(i),))
        go(v, ())
        return out

    def nodes(self, k):
        """atom id -> names of the solver attributes that hold it in generic state k"""
        h = self.R.heads[k]
        st = h['st']
        mus = set(h['mus'])
        own = {}
        for name, v in st.o(self.inst.a).d.items():
            for key, x in self.scalars(st, v):
                for a in walk(x):
                    if a.id in mus:
                        own.setdefault(a.id, set()).add((name, key))
        return own

    def influence(self, k, st, names):
        """head attributes (of generic state k) whose value flows into the named attributes in st"""
        mus = set(self.R.heads[k]['mus'])
        own = self.nodes(k)
        res = set()
        d = st.o(self.inst.a).d
        for n in names:
            if n in d:
                for key, x in self.scalars(st, d[n]):
                    for i in flow(x, mus):
                        res |= own.get(i, set())
        return res

    def influential(self):
        """attributes (name, cell) whose value at the beginning of a step flows into t or y of this or a later step"""
        rel = []
        for k, h, o in self.good:
            mus = set(self.R.heads[k]['mus'])
            own = self.nodes(k)
            d = o.st.o(self.inst.a).d
            m = {}
            for n, v in d.items():
                for key, x in self.scalars(o.st, v):
                    s = set()
                    for i in flow(x, mus):
                        s |= own.get(i, set())
                    m.setdefault((n, key), set()).update(s)
            rel.append(m)
        inf = set()
        for m in rel:
            for (n, key), s in m.items():
                if n in ('t', 'y'):
                    inf |= s | {(n, key)}
        while True:
            new = set()
            for m in rel:
                for nk, s in m.items():
                    if nk in inf:
                        new |= s
            if new <= inf:
                return inf
            inf |= new

    def changes(self, a, b):
        """solver attributes (name, cell) that differ between two states; (name, None) for a replaced object"""
        da, db = a.o(self.inst.a).d, b.o(self.inst.a).d
        out = set()
        for n in set(da) | set(db):
            u, v = da.get(n), db.get(n)
            if n not in da or n not in db:
                out.add((n, None))
                continue
            if isinstance(u, Poly) and isinstance(v, Poly):
                if u is not v:
                    out.add((n, ()))
                continue
            if isinstance(u, Arr) and isinstance(v, Arr) and u.b != v.b:
                out.add((n, None))
                continue
            if type(u) is not type(v) or (not isinstance(u, (Arr, Ref, tuple, Poly)) and u is not v and u != v) or \
                    (isinstance(u, Ref) and u.a != v.a):
                out.add((n, None))
                continue
            x, y = dict(self.scalars(a, u)), dict(self.scalars(b, v))
            for key in set(x) | set(y):
                if x.get(key) is not y.get(key):
                    out.add((n, key))
        return out

    def attr(self, st, name):
        return st.o(self.inst.a).d.get(name)

    def cells(self, st, v):
        if isinstance(v, Arr):
            _, c = self.lib.asarr(st, v)
            return c
        return None

    def call_value(self, f, args, st):
        I = self.I
        I.sinks = [[]]
        I.cur = [('driver', 'call')]
        st = fresh_log(st)
        st.stack = ()
        out = [Out('ok', x, v) for v, x in I.call(f, args, {}, st)]
        return out + [Out('exc', x, exc=e, site=s) for e, x, s in I.sinks[0]]

    def bufs_of(self, st, v, seen=None, out=None):
        """all buffers / mutable containers reachable from a value"""
        seen = set() if seen is None else seen
        out = {} if out is None else out
        self._reach(st, v, seen, out, '')
        return out

    def _reach(self, st, v, seen, out, path):
        if isinstance(v, Arr):
            for b in self.lib.bufs(st, v.b):
                out.setdefault(b, path)
            return
        if isinstance(v, Ref):
            if v.a in seen:
                return
            seen.add(v.a)
            o = st.o(v.a)
            if o.kind in ('list', 'dict', 'set'):
                out.setdefault(v.a, path)
                it = o.d.items() if isinstance(o.d, dict) else enumerate(o.d)
                for k, x in it:
                    self._reach(st, x, seen, out, f'{path}[{k}]')
            elif o.kind == 'inst':
                for k, x in o.d.items():
                    self._reach(st, x, seen, out, f'{path}.{k}')
        if isinstance(v, tuple):
            for k, x in enumerate(v):
                self._reach(st, x, seen, out, f'{path}[{k}]')


def site(s):
    """readable source location"""
    m, f, l = s
    return f'{m.replace(".", "/")}.py:{f}:{l}'


def skey(s):
    """location without the line number"""
    return f'{s[0]}:{s[1]}'
