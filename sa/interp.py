"""Abstract interpreter over the syntax trees of /repo/extensisq.

Values are value numbers (poly.py); both arms of an undecided branch are
analysed and joined with gated (ite) values; loops are unrolled when their trip
sequence is a constant used for indexing and widened to a fixpoint otherwise.
Nothing of the repository is imported or executed.
"""
import ast
import os
import sys
from . import live
from .poly import *
from .iv import Ctx

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """the analysis itself cannot proceed (broken anchor / parse failure)"""


class Unmergeable(Exception):
    pass


class Budget(Exception):
    pass


class HO:
    __slots__ = ('kind', 'd', 'meta')

    def __init__(self, kind, d, meta):
        self.kind, self.d, self.meta = kind, d, meta


class Ref:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return hash(('Ref', self.a))

    def __repr__(self):
        return f'<Ref {self.a}>'


class Arr:
    """view on a buffer. axes: tuple of (dim, segs); dim -1 = newaxis. axes None: unknown shape"""
    __slots__ = ('b', 'axes', 'fixed')

    def __init__(self, b, axes, fixed=()):
        self.b, self.axes, self.fixed = b, axes, fixed

    def __eq__(self, o):
        return isinstance(o, Arr) and (o.b, o.axes, o.fixed) == (self.b, self.axes, self.fixed)

    def __hash__(self):
        return hash((self.b, self.axes, self.fixed))

    def __repr__(self):
        return f'<Arr buf{self.b} {self.axes} {self.fixed}>'


class Bound:
    __slots__ = ('f', 's')

    def __init__(self, f, s):
        self.f, self.s = f, s

    def __eq__(self, o):
        return isinstance(o, Bound) and (o.f, o.s) == (self.f, self.s)

    def __hash__(self):
        return hash((self.f, self.s))


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<builtin {self.name}>'


class Typ:
    """builtin / numpy type object"""
    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<type {self.name}>'


class ExtMod:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtMod) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Super:
    def __init__(self, cls, inst):
        self.cls, self.inst = cls, inst


class Slice_:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, Slice_) and (o.a, o.b, o.c) == (self.a, self.b, self.c)

    def __hash__(self):
        return hash((self.a, self.b, self.c))


class ExcT:
    def __init__(self, name):
        self.name = name


class Exc:
    def __init__(self, name, args):
        self.name, self.args = name, args


class Undef:
    pass


UNDEF = Undef()
ELL = Ellipsis

_addr = [0]


HOOK = [None]       # called for every event (ghost variables of a check)


class St:
    __slots__ = ('heap', 'own', 'facts', 'ev', 'stack', 'ctx', 'tag')

    def __init__(self):
        self.heap = {}
        self.own = set()
        self.facts = {}
        self.ev = None
        self.stack = ()
        self.ctx = None
        self.tag = ()

    def fork(self):
        s = St()
        s.heap = dict(self.heap)
        self.own = set()
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.stack = self.stack
        s.ctx = self.ctx
        s.tag = self.tag
        return s

    def become(self, o):
        """take over the contents of another state"""
        self.heap, self.own, self.facts, self.ev, self.stack, self.ctx = (
            o.heap, o.own, o.facts, o.ev, o.stack, o.ctx)
        self.tag = o.tag

    def o(self, a):
        return self.heap[a]

    def w(self, a):
        h = self.heap[a]
        if a not in self.own:
            d = h.d
            h = HO(h.kind, dict(d) if isinstance(d, dict) else list(d), h.meta)
            self.heap[a] = h
            self.own.add(a)
        return h

    def new(self, kind, d, meta=None):
        _addr[0] += 1
        a = _addr[0]
        self.heap[a] = HO(kind, d, meta or {})
        self.own.add(a)
        return a

    def getctx(self):
        if self.ctx is None:
            self.ctx = Ctx(dict(self.facts))
        return self.ctx

    def event(self, *e):
        self.ev = (self.ev, e)
        if HOOK[0] is not None:
            HOOK[0](self, e)

    def events(self):
        """list of events (each once), in an order consistent with execution"""
        out = []
        seen = set()
        stack = [self.ev]
        while stack:
            n = stack.pop()
            if n is None or id(n) in seen:
                continue
            seen.add(id(n))
            if n[0] == 'merge':
                stack.append(n[1])
                stack.append(n[2])
            else:
                out.append(n[1])
                stack.append(n[0])
        out.reverse()
        return out

    def learn(self, c, v):
        """record a fact; False if contradictory"""
        if isinstance(c, bool):
            return c == v
        if c.kind == 'not':
            return self.learn(c.fargs[0], not v)
        k = self.facts.get(c)
        if k is not None:
            return k == v
        t = self.getctx().truth(c)
        if t is not None and t != v:
            return False
        self.facts[c] = v
        self.ctx = self.ctx.extend(c, v)
        if c.kind == 'and':
            if v:
                for x in c.fargs:
                    if not self.learn(x, True):
                        return False
            else:
                ts = [self.getctx().truth(x) for x in c.fargs]
                for i, x in enumerate(c.fargs):
                    if all(t is True for j, t in enumerate(ts) if j != i):
                        if not self.learn(x, False):
                            return False
        return True

    def truth(self, c):
        if isinstance(c, bool):
            return c
        return self.getctx().truth(c)


class Interp:
    def __init__(self, root, lib, budget=4000000):
        self.root = root              # /repo
        self.lib = lib
        self.modcache = {}
        self.sinks = [[]]
        self.depth = 0
        self.cur = []                 # (module, function name)
        self.line = 0
        self.steps = 0
        self.budget = budget
        self.loop_log = []
        self.reads = set()
        self.fixdepth = 0
        self.ntag = 0
        self.sharp = False        # no merging of paths outside of loops
        self.split = False        # keep the exit states of while loops apart
        self.unknown = {}             # notes on constructs not modelled
        self.cfg = {}                 # analysis configuration (dtype etc.)
        self.nstates = 0

    # ------------------------------------------------------------ modules
    def site(self):
        m, f = self.cur[-1] if self.cur else ('?', '?')
        return (m, f, self.line)

    def note(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def modfile(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, name, st):
        """address of module object"""
        mods = st.heap.get(0)
        if mods is None:
            st.heap[0] = mods = HO('mods', {}, {})
            st.own.add(0)
        if name in mods.d:
            return mods.d[name]
        f = self.lib.stub_file(name) or self.modfile(name)
        if f is None:
            return None
        if f not in self.modcache:
            try:
                self.modcache[f] = ast.parse(open(f).read(), f)
                live.analyse(self.modcache[f])
            except (SyntaxError, OSError) as e:
                raise AnalysisError(f'cannot parse {f}: {e}')
        tree = self.modcache[f]
        a = st.new('env', {'__name__': name}, {'parent': None, 'mod': name, 'module': True})
        st.w(0).d[name] = a
        self.cur.append((name, '<module>'))
        outs = self.block(tree.body, st, a)
        self.cur.pop()
        outs = [o for o in outs if o[0] == 'n']
        if not outs:
            raise AnalysisError(f'module {name} cannot be evaluated: {self.sinks[-1][-1:]}')
        res = self.merge_all([o[1] for o in outs])
        if len(res) > 1:
            self.note(f'module {name} has several end states')
        st.become(res[0])
        # label module level mutable data
        env = st.o(a)
        for k, v in env.d.items():
            self.label(st, v, f'module:{name.split(".")[-1]}.{k}')
        return a

    def label(self, st, v, lab, depth=0):
        if isinstance(v, Arr):
            b = st.o(v.b)
            if not b.meta.get('orig'):
                b = st.w(v.b)
                b.meta = dict(b.meta, orig=frozenset([lab]))
        elif isinstance(v, Ref):
            o = st.o(v.a)
            if o.kind in ('list', 'dict', 'set') and not o.meta.get('orig'):
                o = st.w(v.a)
                o.meta = dict(o.meta, orig=frozenset([lab]))
                if depth < 3:
                    for x in (o.d.values() if isinstance(o.d, dict) else o.d):
                        self.label(st, x, lab, depth + 1)
        elif isinstance(v, tuple) and depth < 3:
            for x in v:
                self.label(st, x, lab, depth + 1)

    # --------------------------------------------------------- statements
    def block(self, stmts, st, env):
        """-> list of (kind, st, val); kind n r b c"""
        live = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in live:
                for k, y, v in self.stmt(s, x, env):
                    if k == 'n':
                        nxt.append(y)
                    else:
                        out.append((k, y, v))
            if len(nxt) > 1 and isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.Expr, ast.Assign, ast.AugAssign)):
                nxt = self.merge_all(nxt)
            live = nxt
            if not live:
                break
        return out + [('n', x, None) for x in live]

    def stmt(self, s, st, env):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('analysis budget exceeded')
        self.line = s.lineno
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.note(f'statement {type(s).__name__} not modelled')
            return [('n', st, None)]
        return m(s, st, env)

    def s_Pass(self, s, st, env):
        return [('n', st, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st, env):
        if isinstance(s.value, ast.Constant):
            return [('n', st, None)]
        return [('n', x, None) for v, x in self.ev(s.value, st, env)]

    def s_Delete(self, s, st, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.w(env).d.pop(t.id, None)
        return [('n', st, None)]

    def s_Assign(self, s, st, env):
        res = []
        for v, x in self.ev(s.value, st, env):
            states = [x]
            for t in s.targets:
                states = [z for y in states for z in self.assign(t, v, y, env)]
            res += [('n', y, None) for y in states]
        return res

    def s_AnnAssign(self, s, st, env):
        if s.value is None:
            return [('n', st, None)]
        return [('n', z, None) for v, x in self.ev(s.value, st, env) for z in self.assign(s.target, v, x, env)]

    def s_AugAssign(self, s, st, env):
        res = []
        t = s.target
        opn = type(s.op).__name__
        if isinstance(t, ast.Name):
            for cur, x in self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, env):
                for v, y in self.ev(s.value, x, env):
                    if isinstance(cur, Arr):
                        self.lib.inplace(self, y, cur, opn, v)
                        res.append(('n', y, None))
                    elif isinstance(cur, Ref) and y.o(cur.a).kind == 'list' and opn == 'Add':
                        self.list_write(y, cur)
                        y.w(cur.a).d.extend(self.lib.iterate(self, y, v) or [])
                        res.append(('n', y, None))
                    else:
                        r = self.lib.binop(self, y, opn, cur, v)
                        self.setname(t.id, r, y, env)
                        res.append(('n', y, None))
        elif isinstance(t, ast.Attribute):
            for o, x in self.ev(t.value, st, env):
                for cur, x2 in self.getattr(o, t.attr, x):
                    for v, y in self.ev(s.value, x2, env):
                        if isinstance(cur, Arr):
                            self.lib.inplace(self, y, cur, opn, v)
                            self.line = s.lineno
                            y_ = self.setattr(o, t.attr, cur, y, aug=True)
                        else:
                            r = self.lib.binop(self, y, opn, cur, v)
                            self.line = s.lineno
                            y_ = self.setattr(o, t.attr, r, y, aug=True)
                        res.append(('n', y, None))
        elif isinstance(t, ast.Subscript):
            for o, x in self.ev(t.value, st, env):
                for i, x2 in self.index(t.slice, x, env):
                    cur = self.lib.getitem(self, x2, o, i)
                    for v, y in self.ev(s.value, x2, env):
                        if isinstance(cur, Arr):
                            self.lib.inplace(self, y, cur, opn, v)
                        else:
                            r = self.lib.binop(self, y, opn, cur, v)
                            self.lib.setitem(self, y, o, i, r)
                        res.append(('n', y, None))
        return res

    def list_write(self, st, ref):
        o = st.o(ref.a)
        st.event('write', frozenset([ref.a]), o.meta.get('orig', frozenset()), self.site(), o.kind)

    def assign(self, t, v, st, env):
        """-> list of states"""
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st, env)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.lib.iterate(self, st, v)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items is None:
                items = [self.unk('item', (v, num(i))) for i in range(n)]
            elif star:
                i = star[0]
                k = len(items) - (n - 1)
                items = items[:i] + [Ref(st.new('list', list(items[i:i + k])))] + items[i + k:]
            if len(items) != n:
                self.raise_(Exc('ValueError', ('unpack',)), st)
                return []
            states = [st]
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    e = e.value
                states = [z for y in states for z in self.assign(e, x, y, env)]
            return states
        if isinstance(t, ast.Attribute):
            res = []
            for o, x in self.ev(t.value, st, env):
                self.line = t.lineno
                self.setattr(o, t.attr, v, x)
                res.append(x)
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for o, x in self.ev(t.value, st, env):
                for i, y in self.index(t.slice, x, env):
                    self.line = t.lineno
                    self.lib.setitem(self, y, o, i, v)
                    res.append(y)
            return res
        self.note(f'assign target {type(t).__name__}')
        return [st]

    def setname(self, name, v, st, env):
        e = st.o(env)
        g = e.meta.get('globals')
        if g and name in g:
            env2 = env
            kind = g[name]
            while True:
                p = st.o(env2).meta.get('parent')
                if p is None:
                    break
                env2 = p
                if kind == 'nonlocal' and name in st.o(env2).d:
                    break
            st.event('globalset', name, self.site())
            st.w(env2).d[name] = v
            return
        st.w(env).d[name] = v

    def s_Return(self, s, st, env):
        if s.value is None:
            return [('r', st, None)]
        return [('r', x, v) for v, x in self.ev(s.value, st, env)]

    def s_Break(self, s, st, env):
        return [('b', st, None)]

    def s_Continue(self, s, st, env):
        return [('c', st, None)]

    def s_If(self, s, st, env):
        out = []
        norm = []
        for tr, x in self.test(s.test, st, env):
            for o in self.block(s.body if tr else s.orelse, x, env):
                if o[0] == 'n':
                    norm.append(o[1])
                else:
                    out.append(o)
        return out + [('n', x, None) for x in self.merge_all(norm)]

    def s_Assert(self, s, st, env):
        out = []
        for tr, x in self.test(s.test, st, env):
            if tr:
                out.append(('n', x, None))
            else:
                self.raise_(Exc('AssertionError', ()), x)
        return out

    def s_Raise(self, s, st, env):
        if s.exc is None:
            self.raise_(Exc('?reraise', ()), st)
            return []
        for v, x in self.ev(s.exc, st, env):
            self.line = s.lineno
            if isinstance(v, ExcT):
                v = Exc(v.name, ())
            self.raise_(v if isinstance(v, Exc) else Exc('?', (v,)), x)
        return []

    def raise_(self, exc, st):
        self.sinks[-1].append((exc, st, self.site()))

    def s_Try(self, s, st, env):
        self.sinks.append([])
        st0 = st.fork()
        outs = self.block(s.body, st, env)
        raised = self.sinks.pop()
        res = []
        for o in outs:
            if o[0] == 'n' and s.orelse:
                res += self.block(s.orelse, o[1], env)
            else:
                res.append(o)
        # a call of unknown code inside the try body may raise anything
        if self.may_raise(s.body):
            raised.append((Exc('?any', ()), st0, self.site()))
        for exc, x, site in raised:
            done = False
            for h in s.handlers:
                if self.exc_match(h, exc, x, env):
                    if h.name:
                        self.setname(h.name, exc, x, env)
                    res += self.block(h.body, x, env)
                    done = True
                    break
            if not done and exc.name != '?any':
                self.sinks[-1].append((exc, x, site))
        if s.finalbody:
            fin = []
            for k, x, v in res:
                for o in self.block(s.finalbody, x, env):
                    fin.append((k, o[1], v) if o[0] == 'n' else o)
            res = fin
        return res

    def may_raise(self, body):
        return any(isinstance(n, (ast.Call, ast.Starred)) for b in body for n in ast.walk(b))

    def exc_match(self, h, exc, st, env):
        if h.type is None:
            return True
        names = [n.id if isinstance(n, ast.Name) else getattr(n, 'attr', '') for n in
                 (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if exc.name == '?any':
            return True
        return exc.name in names or 'Exception' in names or 'BaseException' in names

    def s_With(self, s, st, env):
        states = [st]
        for it in s.items:
            nxt = []
            for x in states:
                for v, y in self.ev(it.context_expr, x, env):
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, y, env)
                    else:
                        nxt.append(y)
            states = nxt
        return [o for x in states for o in self.block(s.body, x, env)]

    def s_Import(self, s, st, env):
        for al in s.names:
            v = self.import_mod(al.name, st)
            if al.asname:
                self.setname(al.asname, v, st, env)
            else:
                top = al.name.split('.')[0]
                self.setname(top, v if '.' not in al.name else self.import_mod(top, st), st, env)
        return [('n', st, None)]

    def import_mod(self, name, st):
        a = self.load(name, st)
        if a is not None:
            return Ref(a)
        return ExtMod(name)

    def s_ImportFrom(self, s, st, env):
        name = s.module or ''
        if s.level:
            cur = st.o(self.modenv(st, env)).meta['mod']
            parts = cur.split('.')
            f = self.modfile(cur)
            if f and f.endswith('__init__.py'):
                parts = parts + ['__init__']
            base = parts[:-s.level]
            name = '.'.join(base + ([s.module] if s.module else []))
        m = self.import_mod(name, st)
        for al in s.names:
            if al.name == '*':
                if isinstance(m, Ref):
                    for k, v in list(st.o(m.a).d.items()):
                        if not k.startswith('_'):
                            self.setname(k, v, st, env)
                continue
            if isinstance(m, Ref):
                d = st.o(m.a).d
                if al.name in d:
                    v = d[al.name]
                else:
                    v = self.import_mod(name + '.' + al.name, st)
                    if isinstance(v, ExtMod):
                        v = self.lib.extattr(self, st, name, al.name)
            else:
                v = self.lib.extattr(self, st, name, al.name)
            self.setname(al.asname or al.name, v, st, env)
        return [('n', st, None)]

    def modenv(self, st, env):
        while True:
            m = st.o(env).meta
            if m.get('module'):
                return env
            env = m['parent']

    def s_FunctionDef(self, s, st, env):
        res = []
        for f, x in self.mkfunc(s, st, env):
            states = [(f, x)]
            for dec in reversed(s.decorator_list):
                nxt = []
                for g, y in states:
                    if isinstance(dec, ast.Name) and dec.id in ('property', 'staticmethod', 'classmethod'):
                        h = y.w(g.a)
                        h.meta = dict(h.meta, deco=dec.id)
                        nxt.append((g, y))
                    else:
                        for d, z in self.ev(dec, y, env):
                            nxt += self.call(d, [g], {}, z)
                states = nxt
            for g, y in states:
                self.setname(s.name, g, y, env)
                res.append(('n', y, None))
        return res

    s_AsyncFunctionDef = s_FunctionDef

    def mkfunc(self, s, st, env):
        a = s.args
        exprs = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        out = []
        for vals, x in self.evs(exprs, st, env):
            nd = len(a.defaults)
            kd = {}
            it = iter(vals[nd:])
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kd[arg.arg] = next(it)
            # the environment is captured
            e = x.o(env)
            if not e.meta.get('captured') and not e.meta.get('module'):
                e = x.w(env)
                e.meta = dict(e.meta, captured=True)
            f = x.new('func', {}, dict(node=s, env=env, defaults=tuple(vals[:nd]), kwdefaults=kd,
                                       name=getattr(s, 'name', '<lambda>'),
                                       mod=x.o(self.modenv(x, env)).meta['mod'],
                                       cls=None, deco=None,
                                       outer=self.cur[-1][1] if self.cur else ''))
            out.append((Ref(f), x))
        return out

    def s_ClassDef(self, s, st, env):
        res = []
        for bases, x in self.evs(s.bases, st, env):
            ce = x.new('env', {}, {'parent': env, 'classbody': True, 'mod': x.o(self.modenv(x, env)).meta['mod']})
            self.cur.append((x.o(self.modenv(x, env)).meta['mod'], s.name))
            outs = self.block(s.body, x, ce)
            self.cur.pop()
            for k, y, v in outs:
                if k != 'n':
                    continue
                attrs = dict(y.o(ce).d)
                c = y.new('class', attrs, {})
                mros = [self.mro(y, b) for b in bases if isinstance(b, Ref)]
                ext = [b for b in bases if not isinstance(b, Ref)]
                y.heap[c].meta = dict(name=s.name, bases=tuple(bases), mro=(c,) + self.c3(mros, bases),
                                      mod=y.o(self.modenv(y, env)).meta['mod'], ext=tuple(ext), line=s.lineno)
                for n, f in attrs.items():
                    if isinstance(f, Ref) and y.o(f.a).kind == 'func' and y.o(f.a).meta['cls'] is None:
                        h = y.w(f.a)
                        h.meta = dict(h.meta, cls=c)
                    else:
                        self.label(y, f, f'class:{s.name}.{n}')
                self.setname(s.name, Ref(c), y, env)
                res.append(('n', y, None))
        return res

    def c3(self, mros, bases):
        seqs = [list(m) for m in mros] + [[b.a for b in bases if isinstance(b, Ref)]]
        out = []
        while True:
            seqs = [q for q in seqs if q]
            if not seqs:
                return tuple(out)
            for q in seqs:
                c = q[0]
                if not any(c in r[1:] for r in seqs):
                    break
            else:
                raise AnalysisError('MRO conflict')
            out.append(c)
            for q in seqs:
                if q[0] == c:
                    del q[0]

    def mro(self, st, ref):
        return st.o(ref.a).meta.get('mro', ())

    # -------------------------------------------------------------- loops
    def s_While(self, s, st, env):
        # constant-trip while loops are unrolled
        u = self.unroll_while(s, st, env)
        if u is not None:
            return u

        def enter(x):
            """-> (stay states, exit states)"""
            stay, leave = [], []
            for tr, y in self.test(s.test, x, env):
                (stay if tr else leave).append(y)
            return stay, leave

        return self.fix(s, st, env, enter, lambda y: [y])

    def unroll_while(self, s, st, env):
        probe = st.fork()
        n_un = len(self.unknown)
        states = [probe]
        outs = []
        done = []
        for k in range(80):
            nxt = []
            for x in states:
                ts = self.test(s.test, x, env)
                if len(ts) != 1 and k == 0:
                    return None
                if len(ts) != 1:
                    return None
                tr, y = ts[0]
                if not tr:
                    done.append(y)
                    continue
                if k == 0 and isinstance(s.test, ast.Constant):
                    return None
                if k == 0 and not self.has_counter(s):
                    return None
                if k == 1 and self.data_dependent_exit(s, outs):
                    return None
                for o in self.block(s.body, y, env):
                    if o[0] in 'nc':
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            states = self.merge_all(nxt)
            if len(states) > 6:
                return None
            if not states:
                break
        if states:
            return None
        res = []
        for x in self.merge_all(done):
            res += self.block(s.orelse, x, env) if s.orelse else [('n', x, None)]
        for x in self.merge_all([o[1] for o in outs if o[0] == 'b']):
            res.append(('n', x, None))
        return res + [o for o in outs if o[0] == 'r']

    def has_counter(self, s):
        """the loop test reads a name that the body updates by a constant"""
        names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names \
                    and isinstance(n.value, ast.Constant):
                return self.index_used(s, names)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and n.targets[0].id in names and isinstance(n.value, ast.BinOp):
                return self.index_used(s, names)
        return False

    def data_dependent_exit(self, s, outs):
        return False

    def index_used(self, s, names):
        """is a name of `names` (or one computed from it) used inside a subscript or passed to a call?"""
        names = set(names)
        for n in ast.walk(s):
            if isinstance(n, ast.Assign) and any(isinstance(m, ast.Name) and m.id in names for m in ast.walk(n.value)) \
                    and not any(isinstance(m, ast.Call) for m in ast.walk(n.value)):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        names.add(t.id)
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and any(
                    isinstance(m, ast.Name) and m.id in names for m in ast.walk(n.slice)):
                return True
            if isinstance(n, ast.Call):
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name) and a.id in names:
                        return True
        return False

    def own_exits(self, body, loop=True):
        """does the loop body contain a break of this loop or a return?"""
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, ast.Return) or (isinstance(n, ast.Break) and loop):
                return True
            sub = []
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(n, f, None)
                if isinstance(v, list):
                    inner = loop and not (isinstance(n, (ast.For, ast.While)) and f == 'body')
                    if self.own_exits(v, inner):
                        return True
            for h in getattr(n, 'handlers', []):
                if self.own_exits(h.body, loop):
                    return True
        return False

    def s_For(self, s, st, env):
        res = []
        for it, x in self.ev(s.iter, st, env):
            items = self.lib.iterate(self, x, it)
            tn = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            if items is not None and len(items) <= 200 and (
                    not self.own_exits(s.body) or self.index_used(s, tn) or not items
                    or not all(isinstance(i, Poly) for i in items)):
                res += self.unroll(s, items, x, env)
            else:
                res += self.for_fix(s, items, it, x, env)
        return res

    def unroll(self, s, items, st, env):
        states = [st]
        brk, outs = [], []
        for v in items:
            nxt = []
            for x in states:
                for y in self.assign(s.target, v, x, env):
                    for o in self.block(s.body, y, env):
                        if o[0] in 'nc':
                            nxt.append(o[1])
                        elif o[0] == 'b':
                            brk.append(o[1])
                        else:
                            outs.append(o)
            states = self.merge_all(nxt)
            if not states:
                break
        for x in states:
            if s.orelse:
                for o in self.block(s.orelse, x, env):
                    if o[0] == 'n':
                        brk.append(o[1])
                    else:
                        outs.append(o)
            else:
                brk.append(x)
        return outs + [('n', x, None) for x in self.merge_all(brk)]

    def for_fix(self, s, items, it, st, env):
        known = items is not None and len(items) > 0
        elem = self.lib.element(self, st, it, items)

        class First:
            pass

        def enter(x):
            y = x
            first = y.o(env).d.get('$first%d' % s.lineno) is True
            z = y.fork()
            ok = []
            for w in self.assign(s.target, self.lib.element(self, z, it, items, fresh=True,
                                                            first=first and known), z, env):
                ok.append(w)
            leave = []
            if not (first and known):
                leave = [y]
                if not known and self.lib.nonempty(self, y, it) and first:
                    leave = []
            return ok, leave

        key = '$first%d' % s.lineno
        st.w(env).d[key] = True

        def after(y):
            y.w(env).d[key] = False
            return [y]
        outs = self.fix(s, st, env, enter, after)
        for k, x, v in outs:
            if key in x.o(env).d:
                x.w(env).d.pop(key)
        return outs

    def fix(self, s, st, env, enter, after):
        """widening fixpoint of a loop; returns outcomes"""
        heads = []          # dicts: st, mus, done, outs
        self.fixdepth += 1
        lv_ = live.LIVE.get(id(s))
        inner_enter = enter

        def enter(x):
            a, b = inner_enter(x)
            if lv_ is not None:
                for y in a + b:
                    d = y.o(env).d
                    dead = [k for k in d if k not in lv_ and k[0] != '$' and k not in ('self', '__class__')]
                    if dead:
                        d = y.w(env).d
                        for k in dead:
                            del d[k]
            return a, b
        stay, leave = enter(st)
        entry_leave = leave
        for x in stay:
            self.add_head(heads, x, env)
        rounds = 0
        while True:
            todo = [h for h in heads if not h['done']]
            if not todo:
                break
            rounds += 1
            if rounds > 60:
                self.note(f'loop at {self.site()} did not stabilise')
                break
            h = todo[0]
            h['done'] = True
            x = h['st'].fork()
            sink = []
            self.sinks.append(sink)
            outs = self.block(s.body, x, env)
            h['outs'] = [o for o in outs if o[0] in 'br']
            h['leave'] = []
            h['back'] = []
            for o in outs:
                if o[0] in 'nc':
                    for y in after(o[1]):
                        sty, lv = enter(y)
                        h['leave'] += lv
                        h['back'] += sty
            self.sinks.pop()
            h['raised'] = sink
            for y in self.merge_all([y.fork() for y in h['back']]):
                self.add_head(heads, y, env)
        self.loop_log.append(dict(site=self.site(), line=s.lineno, kind=type(s).__name__, mod=self.cur[-1], env=env,
                                  heads=[(h['st'], h['back']) for h in heads if h['done']],
                                  exits=[[o[1] for o in h['outs']] + h['leave'] for h in heads if h['done']],
                                  rets=[[o[2] for o in h['outs'] if o[0] == 'r'] for h in heads if h['done']],
                                  left=[[o[1] for o in h['outs'] if o[0] == 'b'] + h['leave'] for h in heads if h['done']]))
        brk, res, exits = [], [], list(entry_leave)
        for h in heads:
            for exc in h.get('raised', ()):
                self.sinks[-1].append(exc)
            for o in h.get('outs', ()):
                if o[0] == 'b':
                    brk.append(o[1])
                else:
                    res.append(o)
            exits += h.get('leave', [])
        self.fixdepth -= 1
        if self.split and self.fixdepth == 0:
            for x in exits + brk + [o[1] for o in res]:
                self.ntag += 1
                x.tag = x.tag + (self.ntag,)
        for x in self.merge_all(exits):
            if s.orelse:
                for o in self.block(s.orelse, x, env):
                    if o[0] == 'n':
                        brk.append(o[1])
                    else:
                        res.append(o)
            else:
                brk.append(x)
        return res + [('n', x, None) for x in self.merge_all(brk)]

    def add_head(self, heads, x, env):
        force = len(heads) >= 8
        for h in heads:
            r = self.generalise(h['st'], x, h['mus'], force, env)
            if r is None:
                continue
            if r == 'same':
                return
            h['st'], h['mus'] = r
            h['done'] = False
            h['n'] = h.get('n', 0) + 1
            return
        heads.append(dict(st=x, mus=set(), done=False))

    def generalise(self, H, B, mus, force=False, env=None):
        """None: incompatible; 'same': H covers B; else (new state, mus)"""
        diff = [a for a in H.heap if a in B.heap and H.heap[a] is not B.heap[a]]
        only = [a for a in B.heap if a not in H.heap]
        G = _Gen(self, H, B, mus, force)
        pairs = []
        for a in diff:
            h, b = H.heap[a], B.heap[a]
            if h.kind != b.kind:
                return None
            if h.kind in ('func',):
                continue
            if isinstance(h.d, dict):
                keys = list(h.d) + [k for k in b.d if k not in h.d]
                for k in keys:
                    u, v = h.d.get(k, UNDEF), b.d.get(k, UNDEF)
                    if u is v or (u == v and not isinstance(u, (bool, float))) or (isinstance(u, bool) and isinstance(v, bool) and u == v):
                        continue
                    pairs.append((a, k, u, v))
            else:
                if len(h.d) != len(b.d):
                    pairs.append((a, '$list', h.d, b.d))
                else:
                    for k, (u, v) in enumerate(zip(h.d, b.d)):
                        if u is not v and u != v:
                            pairs.append((a, k, u, v))
        if not pairs:
            # facts: H's facts must hold in B as well
            lost = [c for c, v in H.facts.items() if B.facts.get(c) != v and B.truth(c) != v]
            if not lost:
                self.add_ev(H, B)
                return 'same'
            n = H.fork()
            for c in lost:
                n.facts.pop(c, None)
            n.ctx = None
            self.add_ev(n, B)
            return n, mus
        try:
            n = H.fork()
            for a in only:
                n.heap[a] = B.heap[a]
            # plain mu patterns first
            order = sorted(pairs, key=lambda p: 0 if isinstance(p[2], Poly) and the_atom(p[2]) is not None
                           and the_atom(p[2]).id in mus else 1)
            changed = False
            for a, k, u, v in order:
                lab = self.loc_label(H, a, k, env)
                r = G.val(u, v, lab, n)
                if r is not u:
                    changed = True
                    w = n.w(a)
                    if k == '$list':
                        w.d = [r]
                        w.meta = dict(w.meta, unklen=True)
                    else:
                        w.d[k] = r
        except Unmergeable:
            return None
        lost = [c for c, v in H.facts.items() if B.facts.get(c) != v and B.truth(G.sub(c)) != v]
        if not changed and not lost:
            self.add_ev(H, B)
            return 'same'
        n.facts = {c: v for c, v in H.facts.items() if c not in lost}
        n.ctx = None
        self.add_ev(n, B)
        return n, mus | G.new

    def add_ev(self, n, B):
        if n.ev is not B.ev:
            n.ev = ('merge', n.ev, B.ev)

    def loc_label(self, st, a, k, env=None):
        o = st.o(a)
        if o.kind == 'inst':
            return f'self.{k}'
        if o.kind == 'buf':
            nm = o.meta.get('label') or 'arr'
            return f'{nm}{list(k) if isinstance(k, tuple) else k}'
        return f'{k}'

    # -------------------------------------------------------------- merge
    def merge_all(self, states):
        if len(states) < 2:
            return list(states)
        out = []
        for x in states:
            for i, y in enumerate(out):
                m = self.merge(y, x)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(x)
        self.nstates = max(self.nstates, len(out))
        if len(out) > 40:
            out2 = []
            for x in out:
                for i, y in enumerate(out2):
                    m = self.merge(y, x, force=True)
                    if m is not None:
                        out2[i] = m
                        break
                else:
                    out2.append(x)
            out = out2
        return out

    def merge(self, A, B, force=False):
        if A is B:
            return A
        if A.stack != B.stack or A.tag != B.tag:
            return None
        if self.sharp and self.fixdepth == 0 and not force:
            return None
        ah, bh = A.heap, B.heap
        diff = [a for a, h in ah.items() if a in bh and bh[a] is not h]
        disc = None
        for c, v in A.facts.items():
            w = B.facts.get(c)
            if w is not None and w != v:
                disc = (c, v)
                break
        n = None
        made = []
        lazy = {}

        def getc():
            if 'c' not in lazy:
                if disc is not None:
                    lazy['c'] = disc[0] if disc[1] else c_not(disc[0])
                else:
                    fa = tuple(c for c in A.facts if c not in B.facts)
                    fb = tuple(c for c in B.facts if c not in A.facts)
                    _muc[0] += 1
                    lazy['c'] = cond('opq', _muc[0], fa[:6] + fb[:6])
            return lazy['c']

        try:
            n = A.fork()
            for a in bh:
                if a not in ah:
                    n.heap[a] = bh[a]
            memo = {}
            for a in diff:
                h, b = ah[a], bh[a]
                if h.kind != b.kind:
                    return None
                if h.kind == 'func':
                    continue
                if isinstance(h.d, dict):
                    ch = {}
                    for k in set(h.d) | set(b.d):
                        u, v = h.d.get(k, UNDEF), b.d.get(k, UNDEF)
                        if u is v:
                            continue
                        ch[k] = self.merge_val(u, v, getc, n, A, B, memo, force)
                    if ch or h.meta is not b.meta:
                        w = n.w(a)
                        w.d.update(ch)
                        if h.meta is not b.meta:
                            w.meta = self.merge_meta(h.meta, b.meta)
                else:
                    if len(h.d) != len(b.d):
                        return None
                    w = None
                    for i, (u, v) in enumerate(zip(h.d, b.d)):
                        if u is v:
                            continue
                        if w is None:
                            w = n.w(a)
                        w.d[i] = self.merge_val(u, v, getc, n, A, B, memo, force)
        except Unmergeable:
            return None
        n.facts = {c: v for c, v in A.facts.items() if B.facts.get(c) == v}
        # keep disjunction-free derived facts: a literal that one side decides by intervals
        for P, Q in ((A, B), (B, A)):
            for c, v in P.facts.items():
                if c not in n.facts and (disc is None or c is not disc[0]) and c not in Q.facts:
                    if Q.truth(c) == v:
                        n.facts[c] = v
        n.ctx = None
        n.ev = A.ev if A.ev is B.ev else ('merge', A.ev, B.ev)
        return n

    def merge_meta(self, m1, m2):
        r = dict(m1)
        for k, v in m2.items():
            if k == 'orig':
                r[k] = r.get(k, frozenset()) | v
            elif k not in r:
                r[k] = v
            elif k == 'captured':
                r[k] = True
        return r

    def merge_val(self, u, v, getc, n, A, B, memo, force):
        if u is v:
            return u
        if u is UNDEF:
            return v
        if v is UNDEF:
            return u
        tu, tv = type(u), type(v)
        if isinstance(u, bool) and isinstance(v, bool):
            if u == v:
                return u
            if not force:
                raise Unmergeable
            return c_ite(getc(), u, v)
        if isinstance(u, (bool, Cond)) and isinstance(v, (bool, Cond)):
            return c_ite(getc(), u, v)
        if isinstance(u, (Poly, bool, Cond)) and isinstance(v, (Poly, bool, Cond)):
            r = ite(getc(), self.lib.topoly(u), self.lib.topoly(v))
            note_merge(r, getc(), A, B)
            return r
        if tu is not tv:
            raise Unmergeable
        if isinstance(u, Arr):
            if u == v:
                return u
            key = (u, v)
            if key in memo:
                return memo[key]
            if u.axes is None or v.axes is None:
                cells = [x for x in list(A.o(u.b).d.values()) + list(B.o(v.b).d.values())]
                r = self.lib.unkarr(self, n, cells, orig=A.o(u.b).meta.get('orig', frozenset()) | B.o(v.b).meta.get('orig', frozenset()))
                memo[key] = r
                return r
            if self.lib.sizes(A, u) != self.lib.sizes(B, v):
                raise Unmergeable
            ca, cb = self.lib.cells(A, u), self.lib.cells(B, v)
            c = getc()
            data = {}
            for k in ca:
                x, y = ca[k], cb[k]
                if x is y:
                    data[k] = x
                elif isinstance(x, Poly) and isinstance(y, Poly):
                    data[k] = ite(c, x, y)
                elif isinstance(x, (bool, Cond)) and isinstance(y, (bool, Cond)):
                    data[k] = c_ite(c, x, y)
                else:
                    raise Unmergeable
            r = self.lib.mkarr(n, self.lib.sizes(A, u), data,
                               orig=A.o(u.b).meta.get('orig', frozenset()) | B.o(v.b).meta.get('orig', frozenset()),
                               alias=frozenset([u.b, v.b]))
            memo[key] = r
            return r
        if isinstance(u, tuple):
            if len(u) != len(v):
                raise Unmergeable
            return tuple(self.merge_val(x, y, getc, n, A, B, memo, force) for x, y in zip(u, v))
        if isinstance(u, Ref):
            if u == v:
                return u
            ou, ov = A.o(u.a), B.o(v.a)
            if ou.kind != ov.kind:
                raise Unmergeable
            if ou.kind == 'func' and ou.meta['node'] is ov.meta['node']:
                if ou.meta['env'] == ov.meta['env'] and ou.meta['defaults'] == ov.meta['defaults']:
                    return u
            if ou.kind == 'list' and len(ou.d) == len(ov.d):
                return Ref(n.new('list', [self.merge_val(x, y, getc, n, A, B, memo, force)
                                          for x, y in zip(ou.d, ov.d)]))
            raise Unmergeable
        if isinstance(u, (str, Bound, ExtMod, Slice_)) and u == v:
            return u
        raise Unmergeable

    # --------------------------------------------------------- expressions
    def test(self, e, st, env):
        """-> list of (bool, st)"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            live = [st]
            out = []
            for i, sub in enumerate(e.values):
                nxt = []
                for x in live:
                    for tr, y in self.test(sub, x, env):
                        if tr == isand:
                            nxt.append(y)
                        else:
                            out.append((not isand, y))
                live = nxt
            out += [(isand, y) for y in live]
            return self.merge_tests(out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, x) for t, x in self.test(e.operand, st, env)]
        out = []
        for v, x in self.ev(e, st, env):
            out += self.branch(v, x)
        return self.merge_tests(out)

    def merge_tests(self, ts):
        if len(ts) <= 2 and len({t for t, _ in ts}) == len(ts):
            return ts
        out = []
        for b in (True, False):
            out += [(b, x) for x in self.merge_all([x for t, x in ts if t == b])]
        return out

    def branch(self, v, st):
        c = self.lib.truthy(self, st, v)
        t = st.truth(c)
        if t is not None:
            return [(t, st)]
        other = st.fork()
        res = []
        if st.learn(c, True):
            res.append((True, st))
        if other.learn(c, False):
            res.append((False, other))
        return res

    def evs(self, es, st, env):
        res = [([], st)]
        for e in es:
            nxt = []
            for vals, x in res:
                if isinstance(e, ast.Starred):
                    for v, y in self.ev(e.value, x, env):
                        items = self.lib.iterate(self, y, v)
                        if items is None:
                            items = [StarUnk(v)]
                        nxt.append((vals + list(items), y))
                else:
                    for v, y in self.ev(e, x, env):
                        nxt.append((vals + [v], y))
            res = nxt
        return res

    def ev(self, e, st, env):
        if hasattr(e, 'lineno'):
            self.line = e.lineno
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note(f'expression {type(e).__name__} not modelled')
            return [(self.unk('expr', ()), st)]
        return m(e, st, env)

    def unk(self, what, deps=()):
        ds = []
        for d in deps:
            if isinstance(d, (Poly, Cond, Atom)):
                ds.append(d)
            elif isinstance(d, (str, int)):
                pass
        m = mu('?' + what, [x for x in ds if isinstance(x, Poly)] + [x for x in ds if isinstance(x, Cond)])
        the_atom(m).info['unk'] = True
        return m

    def e_Constant(self, e, st, env):
        v = e.value
        if isinstance(v, bool) or v is None or v is Ellipsis:
            return [(v, st)]
        if isinstance(v, (int, float)):
            return [(num(v), st)]
        if isinstance(v, complex):
            return [(add(num(v.real), mul(num(v.imag), self.lib.IMAG)), st)]
        return [(v, st)]

    def e_Name(self, e, st, env):
        return [(self.lookup(e.id, st, env), st)]

    def lookup(self, name, st, env):
        a = env
        first = True
        while a is not None:
            o = st.heap[a]
            if name in o.d and (first or not o.meta.get('classbody')):
                v = o.d[name]
                return v
            a = o.meta.get('parent')
            first = False
        v = self.lib.builtin(name)
        if v is None and name not in ('None',):
            self.note(f'name {name} not resolved')
            return self.unk('name:' + name)
        return v

    def e_Tuple(self, e, st, env):
        return [(tuple(v), x) for v, x in self.evs(e.elts, st, env)]

    def e_List(self, e, st, env):
        return [(Ref(x.new('list', list(v))), x) for v, x in self.evs(e.elts, st, env)]

    def e_Set(self, e, st, env):
        return [(Ref(x.new('set', list(v))), x) for v, x in self.evs(e.elts, st, env)]

    def e_Dict(self, e, st, env):
        res = []
        keys = [k for k in e.keys if k is not None]
        for kv, x in self.evs(keys, st, env):
            for vv, y in self.evs(e.values, x, env):
                d = {}
                it = iter(kv)
                for k, v in zip(e.keys, vv):
                    if k is None:
                        if isinstance(v, Ref) and y.o(v.a).kind == 'dict':
                            d.update(y.o(v.a).d)
                    else:
                        d[next(it)] = v
                res.append((Ref(y.new('dict', d)), y))
        return res

    def e_Starred(self, e, st, env):
        return self.ev(e.value, st, env)

    def e_JoinedStr(self, e, st, env):
        parts = []
        x = st
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                r = self.ev(v.value, x, env)
                val, x = r[0]
                if isinstance(val, Poly) and val.const is not None:
                    c = val.const
                    out.append(str(c.numerator) if c.denominator == 1 else str(float(c)))
                elif isinstance(val, str):
                    out.append(val)
                else:
                    out.append('{}')
        return [(''.join(out), x)]

    def e_FormattedValue(self, e, st, env):
        return self.ev(e.value, st, env)

    def e_Lambda(self, e, st, env):
        return self.mkfunc(e, st, env)

    def e_NamedExpr(self, e, st, env):
        res = []
        for v, x in self.ev(e.value, st, env):
            self.setname(e.target.id, v, x, env)
            res.append((v, x))
        return res

    def e_IfExp(self, e, st, env):
        res = []
        for tr, x in self.test(e.test, st, env):
            res += self.ev(e.body if tr else e.orelse, x, env)
        return self.merge_vals(res, env)

    def merge_vals(self, res, env):
        if len(res) < 2:
            return res
        for v, x in res:
            x.w(env).d['$tmp'] = v
        out = []
        for x in self.merge_all([x for v, x in res]):
            v = x.w(env).d.pop('$tmp')
            out.append((v, x))
        return out

    def e_BoolOp(self, e, st, env):
        isand = isinstance(e.op, ast.And)
        live = [st]
        res = []
        for i, sub in enumerate(e.values):
            nxt = []
            for x in live:
                for v, y in self.ev(sub, x, env):
                    if i == len(e.values) - 1:
                        res.append((v, y))
                        continue
                    for tr, z in self.branch(v, y):
                        if tr == isand:
                            nxt.append(z)
                        else:
                            # value of v with its decided truth
                            if isinstance(v, Cond):
                                res.append((tr, z))
                            elif isinstance(v, Poly) and not tr:
                                res.append((ZERO, z))
                            else:
                                res.append((v, z))
            live = nxt
        return self.merge_bool(res, env)

    def merge_bool(self, res, env):
        if len(res) < 2:
            return res
        for v, x in res:
            x.w(env).d['$tmp'] = v
        out = []
        states = [x for v, x in res]
        acc = []
        for x in states:
            for i, y in enumerate(acc):
                u, v = y.o(env).d['$tmp'], x.o(env).d['$tmp']
                fb = isinstance(u, bool) and isinstance(v, bool) and u != v
                # merging booleans of one expression is always allowed
                if fb:
                    yy = y.fork(); xx = x.fork()
                    yy.w(env).d['$tmp'] = num(u)
                    xx.w(env).d['$tmp'] = num(v)
                    m = self.merge(yy, xx)
                    if m is not None:
                        p = m.o(env).d['$tmp']
                        m.w(env).d['$tmp'] = self.lib.tocond(p)
                else:
                    m = self.merge(y, x)
                if m is not None:
                    acc[i] = m
                    break
            else:
                acc.append(x)
        for x in acc:
            out.append((x.w(env).d.pop('$tmp'), x))
        return out

    def e_UnaryOp(self, e, st, env):
        res = []
        for v, x in self.ev(e.operand, st, env):
            if isinstance(e.op, ast.Not):
                res.append((c_not(self.lib.truthy(self, x, v)), x))
            else:
                res.append((self.lib.unary(self, x, type(e.op).__name__, v), x))
        return res

    def e_BinOp(self, e, st, env):
        res = []
        opn = type(e.op).__name__
        for a, x in self.ev(e.left, st, env):
            for b, y in self.ev(e.right, x, env):
                self.line = e.lineno
                res.append((self.lib.binop(self, y, opn, a, b), y))
        return res

    def e_Compare(self, e, st, env):
        res = []
        for vals, x in self.evs([e.left] + e.comparators, st, env):
            acc = True
            for i, o in enumerate(e.ops):
                c = self.lib.compare(self, x, type(o).__name__, vals[i], vals[i + 1])
                if isinstance(c, Arr) and len(e.ops) == 1:
                    acc = c
                    break
                c = self.lib.truthy(self, x, c)
                acc = c_and(acc, c)
            if isinstance(acc, Cond):
                t = x.truth(acc)
                if t is not None:
                    acc = t
            res.append((acc, x))
        return res

    def e_Attribute(self, e, st, env):
        res = []
        for o, x in self.ev(e.value, st, env):
            self.line = e.lineno
            res += self.getattr(o, e.attr, x)
        return res

    def e_Subscript(self, e, st, env):
        res = []
        for o, x in self.ev(e.value, st, env):
            for i, y in self.index(e.slice, x, env):
                res.append((self.lib.getitem(self, y, o, i), y))
        return res

    def index(self, s, st, env):
        return self.ev(s, st, env)

    def e_Slice(self, e, st, env):
        parts = [e.lower, e.upper, e.step]
        es = [p for p in parts if p is not None]
        res = []
        for vals, x in self.evs(es, st, env):
            it = iter(vals)
            res.append((Slice_(*[None if p is None else next(it) for p in parts]), x))
        return res

    def e_ListComp(self, e, st, env):
        self.rep = None
        res = self.comp(e, e.elt, st, env)
        rep = self.rep if len(e.generators) == 1 and not e.generators[0].ifs else None
        self.rep = None
        return [(Ref(x.new('list', v, {'rep': rep} if rep is not None and len(v) == 1 else None)), x) for v, x in res]

    def e_GeneratorExp(self, e, st, env):
        return [(Ref(x.new('list', v)), x) for v, x in self.comp(e, e.elt, st, env)]

    def e_SetComp(self, e, st, env):
        return [(Ref(x.new('set', v)), x) for v, x in self.comp(e, e.elt, st, env)]

    def e_DictComp(self, e, st, env):
        elt = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        return [(Ref(x.new('dict', {k: v for k, v in items})), x) for items, x in self.comp(e, elt, st, env)]

    def comp(self, e, elt, st, env):
        ce = st.new('env', {}, {'parent': env, 'mod': None})
        rep = [None]

        def rec(gens, x, acc):
            if not gens:
                return [(acc + [v], y) for v, y in self.ev(elt, x, ce)]
            g = gens[0]
            out = []
            for it, y in self.ev(g.iter, x, ce):
                items = self.lib.iterate(self, y, it)
                if items is None:
                    items = [self.lib.element(self, y, it, None, fresh=True)]
                    self.note('comprehension over unknown sequence')
                    if isinstance(it, Arr) and it.axes and len(self.lib.sizes(y, it)[0]) == 1:
                        rep[0] = self.lib.sizes(y, it)[0][0]
                        if len(it.axes) == 1:
                            items = list(self.lib.cells(y, it).values())
                states = [(acc, y)]
                for v in items:
                    nxt = []
                    for ac, z in states:
                        for w in self.assign(g.target, v, z, ce):
                            conds = [(True, w)]
                            for c in g.ifs:
                                conds = [(t and t2, w3) for t, w2 in conds for t2, w3 in
                                         (self.test(c, w2, ce) if t else [(False, w2)])]
                            for t, w2 in conds:
                                if t:
                                    nxt += rec(gens[1:], w2, ac)
                                else:
                                    nxt.append((ac, w2))
                    states = nxt
                out += states
            return out
        res = rec(e.generators, st, [])
        self.rep = rep[0]
        return res

    def e_Call(self, e, st, env):
        # super() with no arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.do_super(e, st, env)
        res = []
        for f, x in self.ev(e.func, st, env):
            for args, y in self.evs(e.args, x, env):
                for kvals, z in self.evs([k.value for k in e.keywords], y, env):
                    kw = {}
                    for k, v in zip(e.keywords, kvals):
                        if k.arg is None:
                            if isinstance(v, Ref) and z.o(v.a).kind == 'dict':
                                for kk, vv in z.o(v.a).d.items():
                                    kw[kk] = vv
                            else:
                                kw['**'] = v
                        else:
                            kw[k.arg] = v
                    self.line = e.lineno
                    res += self.call(f, args, kw, z)
        return res

    def do_super(self, e, st, env):
        a = env
        while a is not None:
            o = st.o(a)
            if 'fn' in o.meta and o.meta.get('cls') is not None:
                return [(Super(o.meta['cls'], o.meta['self']), st)]
            a = o.meta.get('parent')
        self.note('super() outside method')
        return [(self.unk('super'), st)]

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st):
        """-> list of (val, st)"""
        if isinstance(o, Ref):
            h = st.o(o.a)
            if h.kind == 'inst':
                if name in h.d:
                    self.reads.add((o.a, name))
                    return [(h.d[name], st)]
                if name == '__class__':
                    return [(Ref(h.meta['cls']), st)]
                if name == '__dict__':
                    return [(Ref(st.new('dict', dict(h.d))), st)]
                return self.clsattr(h.meta['cls'], name, st, o)
            if h.kind == 'class':
                if name in ('__name__', '__qualname__'):
                    return [(h.meta['name'], st)]
                for c in h.meta['mro']:
                    d = st.o(c).d
                    if name in d:
                        v = d[name]
                        if isinstance(v, Ref) and st.o(v.a).kind == 'func' and st.o(v.a).meta.get('deco') == 'classmethod':
                            return [(Bound(v, o), st)]
                        return [(v, st)]
                return [(self.unk(f'clsattr:{name}'), st)]
            if h.kind == 'env':      # module
                if name in h.d:
                    return [(h.d[name], st)]
                sub = self.import_mod(h.meta['mod'] + '.' + name, st)
                if isinstance(sub, ExtMod):
                    return [(self.lib.extattr(self, st, h.meta['mod'], name), st)]
                return [(sub, st)]
            if h.kind == 'func':
                if name in ('__name__', '__qualname__'):
                    return [(h.meta['name'], st)]
                return [(self.unk('funcattr'), st)]
            return [(self.lib.method(self, st, o, name), st)]
        if isinstance(o, Super):
            h = st.o(o.inst.a)
            mro = st.o(h.meta['cls']).meta['mro'] if h.kind == 'inst' else h.meta['mro']
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                d = st.o(c).d
                if name in d:
                    v = d[name]
                    if isinstance(v, Ref) and st.o(v.a).kind == 'func':
                        return [(Bound(v, o.inst), st)]
                    return [(v, st)]
            return [(Builtin('object.' + name, lambda I, st, a, k: [(None, st)]), st)]
        return [(self.lib.attr(self, st, o, name), st)]

    def clsattr(self, cls, name, st, inst):
        for c in st.o(cls).meta['mro']:
            d = st.o(c).d
            if name in d:
                v = d[name]
                if isinstance(v, Ref) and st.o(v.a).kind == 'func':
                    deco = st.o(v.a).meta.get('deco')
                    if deco == 'property':
                        return self.call(v, [inst], {}, st)
                    if deco == 'staticmethod':
                        return [(v, st)]
                    if deco == 'classmethod':
                        return [(Bound(v, Ref(cls)), st)]
                    return [(Bound(v, inst), st)]
                return [(v, st)]
        self.note(f'attribute {name} of {st.o(cls).meta["name"]} not found')
        self.raise_(Exc('AttributeError', (name,)), st.fork())
        return [(self.unk('attr:' + name), st)]

    def setattr(self, o, name, v, st, aug=False):
        if isinstance(o, Ref):
            h = st.o(o.a)
            if h.kind == 'inst':
                st.event('setattr', o.a, name, self.site(), v)
                st.w(o.a).d[name] = v
                return
            if h.kind == 'class':
                st.event('classset', h.meta['name'], name, self.site())
                st.w(o.a).d[name] = v
                return
            if h.kind == 'env':
                st.event('globalset', name, self.site())
                st.w(o.a).d[name] = v
                return
        if isinstance(o, Arr) and name == 'shape':
            self.note('assignment to shape')
            return
        self.note(f'attribute assignment on {type(o).__name__}')

    # ----------------------------------------------------------------- calls
    def call(self, f, args, kw, st):
        if isinstance(f, Bound):
            if isinstance(f.f, Builtin):
                return f.f.fn(self, st, [f.s] + list(args), kw)
            return self.call(f.f, [f.s] + list(args), kw, st)
        if isinstance(f, Builtin):
            return f.fn(self, st, list(args), kw)
        if isinstance(f, Typ):
            if f.fn is None:
                self.note(f'type call {f.name}')
                return [(self.unk('call:' + f.name, args), st)]
            return f.fn(self, st, list(args), kw)
        if isinstance(f, ExcT):
            return [(Exc(f.name, tuple(args)), st)]
        if isinstance(f, Ref):
            h = st.o(f.a)
            if h.kind == 'func':
                return self.call_func(f, args, kw, st)
            if h.meta.get('call'):
                return h.meta['call'](self, st, f, list(args), kw)
            if h.kind == 'class':
                return self.instantiate(f, args, kw, st)
            if h.kind == 'inst':
                res = []
                for m, x in self.clsattr(h.meta['cls'], '__call__', st, f):
                    res += self.call(m, args, kw, x)
                return res
        if isinstance(f, Poly):
            st.event('unkcall', f, self.site())
            return [(self.unk('call', [f] + list(args) + list(kw.values())), st)]
        self.note(f'call of {type(f).__name__}')
        return [(self.unk('call', list(args)), st)]

    def instantiate(self, cref, args, kw, st):
        c = st.o(cref.a)
        for a in c.meta['mro']:
            if any(isinstance(b, ExcT) for b in st.o(a).meta.get('ext', ())):
                return [(Exc(c.meta['name'], tuple(args)), st)]
        i = st.new('inst', {}, {'cls': cref.a})
        inst = Ref(i)
        init = None
        for a in c.meta['mro']:
            if '__init__' in st.o(a).d:
                init = st.o(a).d['__init__']
                break
        if init is None:
            return [(inst, st)]
        return [(inst, x) for v, x in self.call(init, [inst] + list(args), kw, st)]

    def bind(self, meta, args, kw, st):
        """-> dict of parameters or None on error"""
        a = meta['node'].args
        pos = [p.arg for p in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        star = None
        if any(isinstance(x, StarUnk) for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, StarUnk))
            star = args[i]
            if a.vararg and i >= len(pos):
                d[a.vararg.arg] = star.v
                args = args[:i]
            else:
                args = args[:i]
        for n, v in zip(pos, args):
            d[n] = v
        extra = args[len(pos):]
        if a.vararg:
            d.setdefault(a.vararg.arg, tuple(extra))
        elif extra:
            return None, 'too many positional arguments'
        kwn = [p.arg for p in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in pos or k in kwn:
                if k in d:
                    return None, f'multiple values for argument {k}'
                d[k] = v
            else:
                rest[k] = v
        if rest and not a.kwarg:
            return None, f'unexpected keyword argument {sorted(map(str, rest))[0]}'
        defs = meta['defaults']
        for n, v in zip(pos[len(pos) - len(defs):], defs):
            d.setdefault(n, v)
        for n, v in meta['kwdefaults'].items():
            d.setdefault(n, v)
        for n in pos + kwn:
            if n not in d:
                if star is not None:
                    d[n] = self.unk('stararg', [star.v])
                else:
                    return None, f'missing argument {n}'
        if a.kwarg:
            d[a.kwarg.arg] = Ref(st.new('dict', rest))
        return d, None

    def call_func(self, fref, args, kw, st):
        h = st.o(fref.a)
        meta = h.meta
        node = meta['node']
        d, err = self.bind(meta, args, kw, st)
        if d is None:
            st.event('badcall', meta['name'], err, self.site())
            self.raise_(Exc('TypeError', (f"{meta['name']}: {err}",)), st)
            return []
        if self.depth > 40:
            self.note(f'recursion in {meta["name"]}')
            return [(self.unk('deep', list(d.values())), st)]
        em = {'parent': meta['env'], 'fn': fref.a, 'mod': meta['mod']}
        if meta['cls'] is not None:
            em['cls'] = meta['cls']
            ps = node.args.posonlyargs + node.args.args
            em['self'] = d.get(ps[0].arg) if ps else None
        if isinstance(node, ast.Lambda):
            env = st.new('env', d, em)
            self.depth += 1
            self.cur.append((meta['mod'], meta['outer'] + '.<lambda>'))
            res = self.ev(node.body, st, env)
            self.cur.pop()
            self.depth -= 1
            return res
        g = {}
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    g[x] = 'global' if isinstance(n, ast.Global) else 'nonlocal'
        if g:
            em['globals'] = g
        env = st.new('env', d, em)
        line0 = self.line
        self.depth += 1
        name = meta['name']
        if meta['cls'] is not None:
            name = st.o(meta['cls']).meta['name'] + '.' + name
        elif meta['outer'] and meta['outer'] != '<module>':
            name = meta['outer'] + '.' + name
        self.cur.append((meta['mod'], name))
        st.stack = st.stack + (env,)
        outs = self.block(node.body, st, env)
        self.cur.pop()
        self.depth -= 1
        self.line = line0
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
        states = []
        for k, x, v in outs:
            x.w(env).d['$ret'] = v if k == 'r' else None
            x.stack = x.stack[:-1]
            # locals are dead unless captured by a closure
            o = x.o(env)
            if not o.meta.get('captured'):
                x.heap[env] = HO('env', {'$ret': o.d['$ret']}, o.meta)
                x.own.add(env)
            states.append(x)
        for exc, x, s in self.sinks[-1]:
            if x.stack and x.stack[-1] == env:
                x.stack = x.stack[:-1]
        res = []
        for x in self.merge_all(states):
            o = x.w(env)
            v = o.d.pop('$ret', None)
            if not o.meta.get('captured'):
                del x.heap[env]
            res.append((v, x))
        if gen:
            self.note(f'generator function {name}')
            res = [(self.unk('generator'), x) for v, x in res]
        return res


class StarUnk:
    """*unknown in an argument list"""
    def __init__(self, v):
        self.v = v


class _Gen:
    """pairwise generalisation (anti-unification) of loop head and back edge values"""

    def __init__(self, I, H, B, mus, force):
        self.I, self.H, self.B, self.mus, self.force = I, H, B, mus, force
        self.sigma = {}
        self.memo = {}
        self.new = set()
        self.skey, self.smemo = None, {}
        self.musmask = 0
        for i in mus:
            if i < len(ATOMS) and ATOMS[i].kind == "mu":
                self.musmask |= 1 << i

    def sub(self, c):
        """formula/poly of H expressed with B's values"""
        sg = self.sigma
        if not isinstance(c, (Cond, Poly)):
            return c
        mask = 0
        for i, v in sg.items():
            if v is not of_atom(ATOMS[i]):
                mask |= 1 << i
        if not mask:
            return c
        key = (mask, tuple(sg.items()))
        if self.skey != key:
            self.skey, self.smemo = key, {}

        def f(a):
            if a.kind == 'mu' and a.id in sg:
                return sg[a.id]
            return None
        return subst(c, f, self.smemo, mask)

    def props(self, p, st):
        lo, hi, nan = st.getctx().iv(p)
        return lo, hi, nan

    def ok_bind(self, a, v):
        lo, hi, nan = self.props(v, self.B)
        i = a.info
        if not i.get('nan', False) and nan:
            return False
        if i.get('pos') and not (lo > 0 or is_pos(v)):
            return False
        if i.get('nonneg') and not (lo >= 0 or is_nonneg(v)):
            return False
        if 'lo' in i and lo < i['lo']:
            return False
        if 'hi' in i and hi > i['hi']:
            return False
        return True

    def match(self, p, v, trail):
        if p is v:
            # pattern mus must map to themselves
            for a in (walk(p) if pmask(p) & self.musmask else ()):
                if a.kind == 'mu' and a.id in self.mus:
                    s = self.sigma.get(a.id)
                    if s is None:
                        self.sigma[a.id] = of_atom(a)
                        trail.append(a.id)
                    elif s is not of_atom(a):
                        return False
            return True
        at = the_atom(p)
        if at is not None and at.kind == 'mu' and at.id in self.mus:
            s = self.sigma.get(at.id)
            if s is not None:
                return s is v
            if not self.ok_bind(at, v):
                return False
            self.sigma[at.id] = v
            trail.append(at.id)
            note_source(at.id, v, self.B)
            return True
        if at is not None and at.kind == 'app':
            av = the_atom(v)
            if av is None or av.kind != 'app' or av.args[0] != at.args[0] or len(av.args) != len(at.args):
                return False
            return self.match_args(at.args[1:], av.args[1:], trail)
        # equality after substitution
        bound = 0
        for i in self.sigma:
            bound |= 1 << i
        free = pmask(p) & self.musmask & ~bound
        if free:
            return self.solve(p, v, free, trail)
        return self.sub(p) is v

    def solve(self, p, v, free, trail):
        """pattern k + c*m with one unbound generalised atom m and c = +-1 or a sign: m = (v - k)/c"""
        if free & (free - 1):
            return False
        at = ATOMS[free.bit_length() - 1]
        hit, rest = None, p
        for m, c in p.terms.items():
            ids = [a for a, e in m]
            if at.id in ids:
                if hit is not None or dict(m)[at.id] != 1 or abs(c) != 1:
                    return False
                other = [a for a in ids if a != at.id]
                if any(not is_sign(ATOMS[a]) for a in other):
                    return False
                hit = mk({tuple((a, e) for a, e in m if a != at.id): c})
                rest = add(p, neg(mul(hit, of_atom(at))))
        if hit is None or pmask(rest) & free:
            return False
        w = mul(hit, add(v, neg(self.sub(rest))))
        if not self.ok_bind(at, w):
            return False
        self.sigma[at.id] = w
        trail.append(at.id)
        note_source(at.id, w, self.B)
        return True

    def match_args(self, xs, ys, trail):
        if len(xs) != len(ys):
            return False
        for x, y in zip(xs, ys):
            if isinstance(x, Poly) and isinstance(y, Poly):
                if not self.match(x, y, trail):
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if not self.match_args(x, y, trail):
                    return False
            elif x != y:
                return False
        return True

    def poly(self, p, v, lab):
        key = (p, v)
        r = self.memo.get(key)
        if r is not None:
            return r
        trail = []
        if (p is not v or True) and self.match(p, v, trail):
            self.memo[key] = p
            return p
        for t in trail:
            del self.sigma[t]
        ap, av = the_atom(p), the_atom(v)
        if ap is not None and av is not None and ap.kind == 'app' and av.kind == 'app' \
                and ap.args[0] == av.args[0] and len(ap.args) == len(av.args):
            na = self.args(ap.args[1:], av.args[1:], lab)
            if na is not None:
                b = atom('app', ap.args[0], *na)
                if b.info is None:
                    b.info = ap.info
                r = of_atom(b)
                self.memo[key] = r
                return r
        if ap is not None and av is not None and ap.kind == 'op' and av.kind == 'op' and ap.args[0] == av.args[0] \
                and ap.args[0] in ('lu', 'solve') and len(ap.args) == len(av.args):
            na = self.args(ap.args[1:], av.args[1:], lab)
            if na is not None:
                b = atom('op', ap.args[0], *na)
                if b.info is None:
                    b.info = ap.info
                r = of_atom(b)
                self.memo[key] = r
                return r
        l1, h1, n1 = self.props(p, self.H)
        l2, h2, n2 = self.props(v, self.B)
        if (l1 < 0 or l2 < 0) and not getattr(self, 'signed', False):
            # the sign of the value is the direction of integration
            sg = sign_of(p) or sign_of(v)
            if sg is not None:
                dp, dv = mul(sg, p), mul(sg, v)
                if self.props(dp, self.H)[0] >= 0 and self.props(dv, self.B)[0] >= 0:
                    self.signed = True
                    r = mul(sg, self.poly(dp, dv, lab))
                    self.signed = False
                    self.memo[key] = r
                    return r
        info = {}
        if n1 or n2:
            info['nan'] = True
        if (l1 > 0 or is_pos(p)) and (l2 > 0 or is_pos(v)):
            info['pos'] = True
        elif (l1 >= 0 or is_nonneg(p)) and (l2 >= 0 or is_nonneg(v)):
            info['nonneg'] = True
        for k in ('axis', 'real'):
            xs = [x.info.get(k) for x in poly_atoms(p) + poly_atoms(v) if x.info and x.info.get(k) is not None]
            if xs:
                info[k] = xs[0] if k == 'axis' else all(xs)
        src = set()
        for a in poly_atoms(p):
            if a.kind == 'mu' and a.id in self.mus and the_atom(p) is a:
                src |= MU_SOURCES.get(a.id, set())
        src.discard(p)
        m = mu(lab, ({p} if not src else src) | {v}, **info)
        i = the_atom(m).id
        if src:
            for a in poly_atoms(p):
                for x in src:
                    if (a.id, x) in MU_FACTS:
                        note_source(i, x, None, MU_FACTS[(a.id, x)])
        else:
            note_source(i, p, self.H)
        note_source(i, v, self.B)
        self.new.add(i)
        self.memo[key] = m
        return m

    def args(self, xs, ys, lab):
        out = []
        for x, y in zip(xs, ys):
            if isinstance(x, Poly) and isinstance(y, Poly):
                out.append(x if x is y and not self.has_mu(x) else self.poly(x, y, lab + '.arg'))
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                r = self.args(x, y, lab)
                if r is None:
                    return None
                out.append(tuple(r))
            elif x == y:
                out.append(x)
            else:
                return None
        return out

    def has_mu(self, x):
        return bool(xmask((x,)) & self.musmask)

    def val(self, u, v, lab, n):
        L = self.I.lib
        if u is v:
            if isinstance(u, Poly):
                return self.poly(u, v, lab)
            return u
        if u is UNDEF or v is UNDEF:
            # possibly undefined: value unknown at the head
            w = v if u is UNDEF else u
            return self.weaken(w, lab, n)
        if isinstance(u, bool) and isinstance(v, bool):
            if u == v:
                return u
            if not self.force:
                raise Unmergeable
            return self.newcond(lab)
        if isinstance(u, (bool, Cond)) and isinstance(v, (bool, Cond)):
            if isinstance(u, Cond) and u.kind == 'opq' and u.fargs[0] in self.mus:
                return u
            if self.sub(u) is v:
                return u
            return self.newcond(lab, u, v)
        if isinstance(u, (Poly, bool, Cond)) and isinstance(v, (Poly, bool, Cond)):
            return self.poly(L.topoly(u), L.topoly(v), lab)
        if type(u) is not type(v):
            if self.force:
                return self.I.unk(lab)
            raise Unmergeable
        if isinstance(u, Arr):
            if u == v:
                return u
            key = (u, v)
            if key in self.memo:
                return self.memo[key]
            ou, ov = self.H.o(u.b).meta, self.B.o(v.b).meta
            orig = ou.get('orig', frozenset()) | ov.get('orig', frozenset())
            if ou.get('widened') and u.b in n.heap and u.axes is not None and v.axes is not None \
                    and L.sizes(self.H, u) == L.sizes(self.B, v):
                ca, cb = L.cells(self.H, u), L.cells(self.B, v)
                data = {k: self.cell(ca[k], cb[k], lab) for k in ca}
                if all(data[k] is ca[k] for k in ca) and orig <= ou.get('orig', frozenset()):
                    self.memo[key] = u
                    return u
                r = L.mkarr(n, L.sizes(self.H, u), data, orig=orig)
            elif u.axes is None or v.axes is None or L.sizes(self.H, u) != L.sizes(self.B, v):
                if u.axes is None and ou.get('widened') and orig <= ou.get('orig', frozenset()):
                    for x in self.B.o(v.b).d.values():
                        for y in self.H.o(u.b).d.values():
                            a = the_atom(y) if isinstance(y, Poly) else None
                            if a is not None and a.kind == 'mu' and isinstance(x, Poly):
                                MU_SOURCES[a.id].add(x)
                    self.memo[key] = u
                    return u
                if self.H.o(u.b).d and u.axes is not None and v.axes is not None and not self.force and \
                        len(u.axes) != len(v.axes):
                    raise Unmergeable
                r = L.unkarr(self.I, n, list(self.H.o(u.b).d.values()) + list(self.B.o(v.b).d.values()), orig=orig)
            else:
                ca, cb = L.cells(self.H, u), L.cells(self.B, v)
                data = {k: self.cell(ca[k], cb[k], lab) for k in ca}
                r = L.mkarr(n, L.sizes(self.H, u), data, orig=orig)
            w = n.w(r.b)
            w.meta = dict(w.meta, widened=True)
            self.memo[key] = r
            return r
        if isinstance(u, tuple):
            if len(u) != len(v):
                raise Unmergeable
            r = tuple(self.val(x, y, f'{lab}[{i}]', n) for i, (x, y) in enumerate(zip(u, v)))
            return u if all(x is y for x, y in zip(r, u)) else r
        if isinstance(u, str):
            if u == v:
                return u
            if not self.force:
                raise Unmergeable
            return self.I.unk('str')
        if isinstance(u, Ref):
            if u == v:
                return u
            ou, ov = self.H.o(u.a), self.B.o(v.a)
            if ou.kind == ov.kind == 'list' and len(ou.d) == len(ov.d):
                key = (u, v)
                if key in self.memo:
                    return self.memo[key]
                if ou.meta.get('widened'):
                    items = [self.val(x, y, lab, n) for x, y in zip(ou.d, ov.d)]
                    if all(x is y for x, y in zip(items, ou.d)):
                        self.memo[key] = u
                        return u
                else:
                    items = [self.val(x, y, lab, n) for x, y in zip(ou.d, ov.d)]
                r = Ref(n.new('list', items, {'widened': True}))
                self.memo[key] = r
                return r
            if ou.kind == ov.kind == 'func' and ou.meta['node'] is ov.meta['node']:
                return v
            if ou.kind == ov.kind == 'inst' and ou.meta['cls'] == ov.meta['cls']:
                return v
            raise Unmergeable
        if u == v:
            return u
        raise Unmergeable

    def cell(self, x, y, lab):
        if x is y:
            return self.poly(x, y, lab) if isinstance(x, Poly) else x
        if isinstance(x, Poly) and isinstance(y, Poly):
            return self.poly(x, y, lab)
        if isinstance(x, (bool, Cond)) and isinstance(y, (bool, Cond)):
            if isinstance(x, Cond) and x.kind == 'opq' and x.fargs[0] in self.mus:
                return x
            return self.newcond(lab, x, y)
        return self.poly(self.I.lib.topoly(x), self.I.lib.topoly(y), lab)

    def newcond(self, lab, *deps):
        key = ('cond', lab) + deps
        c = self.memo.get(key)
        if c is None:
            _muc[0] += 1
            c = cond('opq', _muc[0], tuple(d for d in deps if isinstance(d, Cond)))
            self.new.add(_muc[0])
            self.memo[key] = c
        return c

    def weaken(self, w, lab, n):
        L = self.I.lib
        if isinstance(w, Poly):
            a = the_atom(w)
            if a is not None and a.kind == 'mu' and a.id in self.mus and a.info.get('weak'):
                return w
            m = mu(lab, [w], weak=True, nan=True)
            self.new.add(the_atom(m).id)
            return m
        if isinstance(w, Cond):
            if w.kind == 'opq' and w.fargs[0] in self.mus:
                return w
            return self.newcond(lab, w)
        if isinstance(w, Arr):
            if self.B.heap.get(w.b, self.H.heap.get(w.b)).meta.get('weak'):
                return w
            src = self.B if w.b in self.B.heap else self.H
            if w.axes is None:
                r = L.unkarr(self.I, n, list(src.o(w.b).d.values()), orig=src.o(w.b).meta.get('orig', frozenset()))
            else:
                ca = L.cells(src, w)
                data = {}
                for k, x in ca.items():
                    if isinstance(x, Poly):
                        m = mu(f'{lab}{list(k)}', [x], weak=True, nan=True)
                        for y in poly_atoms(x):
                            if y.info and y.info.get('axis') is not None:
                                the_atom(m).info['axis'] = y.info['axis']
                        self.new.add(the_atom(m).id)
                        data[k] = m
                    else:
                        data[k] = x
                r = L.mkarr(n, L.sizes(src, w), data, orig=src.o(w.b).meta.get('orig', frozenset()))
            o = n.w(r.b)
            o.meta = dict(o.meta, weak=True, widened=True)
            return r
        return w


def sign_of(p):
    for a in poly_atoms(p):
        if a.info and a.info.get('sign'):
            return of_atom(a)
    return None


MERGE_FACTS = {}         # (merged atom, branch) -> facts that hold on the paths of that branch only


MU_FACTS = {}            # (merge of a loop, source value) -> facts of the state it comes from


def note_source(i, v, st, facts=None):
    MU_SOURCES.setdefault(i, set()).add(v)
    f = st.facts if facts is None else facts
    old = MU_FACTS.get((i, v))
    if old is not None:
        f = {c: b for c, b in old.items() if f.get(c) == b}
    MU_FACTS[(i, v)] = dict(f)


def note_merge(r, c, A, B):
    if isinstance(c, bool):
        return
    at = [x for x in poly_atoms(r) if x.kind == 'ite' and (x.args[0] is c or c.kind == 'not' and x.args[0] is c.fargs[0])]
    if len(at) != 1:
        return
    for P, Q, br in ((A, B, True), (B, A, False)):
        key = (at[0].id, br != (c.kind == 'not'))
        f = {d: b for d, b in P.facts.items() if Q.facts.get(d) != b}
        old = MERGE_FACTS.get(key)
        MERGE_FACTS[key] = f if old is None else {d: b for d, b in old.items() if f.get(d) == b}


def is_pos(p):
    """syntactic: positive combination of strictly positive atoms"""
    if not p.terms:
        return False
    for m, c in p.terms.items():
        if c <= 0:
            return False
        for a, e in m:
            at = ATOMS[a]
            if not (at.info and at.info.get('pos')):
                return False
    return True


from .poly import _muc      # noqa: E402
