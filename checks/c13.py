"""C13: dense outputs are immutable snapshots and do not influence the integration."""
from .common import *

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation: alias and dataflow analysis of dense outputs'
RULE = ('alias and dataflow analysis by abstract interpretation. For every class, generic state and step path the dense output object '
        'is built abstractly. Obligations: (a) no buffer reachable from the object belongs to an attribute of the solver that a later '
        'step, a later dense output or an evaluation writes in place; (b) every solver attribute or array cell that dense output '
        'changes (other than the evaluation count) cannot flow into t or y of any later step (fixpoint over the value flow between '
        'attributes, confirmed with marker values); (c) a second dense output for the same step holds the same value numbers; '
        '(d) evaluating it, at a time or an array of times, writes to no existing array.')
ASSUME = ['numpy/scipy calls behave as modelled in sa/libnp.py and sa/libfn.py (which arguments they write, which results alias)']


def jobs(tier):
    return [(lab, 'job', dict(cls=c, **kw), lim) for lab, c, kw, lim in configs(tier)]


def solver_paths(X, st):
    """buffer -> names of solver attributes reaching it"""
    out = {}
    for n, v in st.o(X.inst.a).d.items():
        for b in X.bufs_of(st, v):
            out.setdefault(b, set()).add(n)
    return out


def job(r, cls, **cfg):
    X = Explore(cls, **cfg)
    fi5 = cls == 'Fi5N' and cfg.get('opts', {}).get('interpolant') is num(1)
    bad = False
    # attributes whose buffers are written in place by a step, per generic state
    written = {}
    moves = {}
    for k, h, o in X.steps:
        sp = solver_paths(X, h)
        for e in writes(o.st):
            for b in e[1]:
                for n in sp.get(b, ()):
                    written.setdefault(n, (e[3], e[4]))
        for b, ns in solver_paths(X, o.st).items():
            for n in sp.get(b, ()):
                moves.setdefault(n, set()).update(ns)
    for k, h, o, d in X.dense:
        sp = solver_paths(X, o.st)
        for e in writes(d.st):
            for b in e[1]:
                for n in sp.get(b, ()):
                    written.setdefault(n, (e[3], e[4]))
    shared_total = 0
    changed = {}
    for k, h, o, d in X.dense:
        if d.kind != 'ok' or not isinstance(d.val, Ref):
            continue
        mine = X.bufs_of(d.st, d.val)
        sp = solver_paths(X, d.st)
        for b, path in mine.items():
            names = set(sp.get(b, ()))
            todo = list(names)
            while todo:                       # attributes the buffer can move to in later steps
                for m in moves.get(todo.pop(), ()):
                    if m not in names:
                        names.add(m)
                        todo.append(m)
            shared_total += bool(names)
            for n in sorted(names):
                if n in written and n not in ('t',):
                    s, what = written[n]
                    bad = True
                    r.bad(f'{cls} dense output shares {n}', f'the dense output object holds (in {path or "itself"}) the buffer of the solver '
                          f'attribute {n}, which {site(s)} rewrites in place in a later step or dense output', site(s))
        for nk in X.changes(o.st, d.st):
            changed.setdefault(nk, []).append((k, h, o, d))
    if not bad:
        r.good(f'{len(X.dense)} dense outputs: {shared_total} buffers shared with the solver, none is written later')
    # (b) influence on later steps
    ch = {nk for nk in changed if nk[0] != 'nfev'}
    inf = X.influential()
    ctl = {(n, key) for n, key in ch if key is not None}
    hit = {nk for nk in ctl if nk in inf or nk[0] in ('t', 'y', 't_old', 'y_old', 'h_previous', 'h_abs', 'f')}
    if fi5:
        hit = {nk for nk in hit if nk[0] != 'y' and not same_buf(X, nk, 'y')}
    confirmed = confirm(X, hit)
    for nk in sorted(confirmed, key=str):
        bad = True
        d = changed[nk][0][3]
        s = next((e[3] for e in writes(d.st)), None)
        r.bad(f'{cls} dense output changes {nk[0]}', f'making dense output changes {nk[0]} of the solver, which flows into {confirmed[nk]} of '
              f'the next step', site(s) if s else '')
    for n, key in sorted(ch - ctl, key=str):
        if n in X.R.step_reads and not isinstance(X.attr(changed[(n, key)][0][3].st, n), Poly):
            if fresh_object(X, n, changed[(n, key)]):
                bad = True
                r.bad(f'{cls} dense output changes {n}', f'making dense output replaces attribute {n}, which a step reads', '')
    if not confirmed:
        r.good(f'dense output changes {sorted({n for n, _ in ch | set(changed)})}; nothing of it flows into later steps')
    # (c), (d)
    n2 = 0
    for k, h, o, d in X.dense:
        if d.kind != 'ok':
            if d.kind == 'exc':
                r.bad(f'{cls} dense output raises', f'dense_output raises {d.exc.name} after a successful step', site(d.site) if d.site else '')
            continue
        s0 = fresh_log(d.st)
        again = X.R.call_method(X.inst, 'dense_output', [], s0)
        mine = X.bufs_of(d.st, d.val) if isinstance(d.val, Ref) else {}
        ref = content(X, d.st, d.val)
        for e2 in again:
            for e in writes(e2.st):
                if set(mine) & set(e[1]) and not fi5:
                    bad = True
                    r.bad(f'{cls} second dense output writes first', f'{site(e[3])} changes the data of an earlier dense output', site(e[3]))
            if e2.kind == 'ok':
                got = content(X, e2.st, e2.val)
                if got.keys() == ref.keys() and not fi5:
                    for p in ref:
                        if got[p] is not ref[p] and not flowmu(got[p]) and not flowmu(ref[p]):
                            bad = True
                            r.bad(f'{cls} second dense output differs', f'the second dense output of a step holds other values in {p}', '')
                            break
        if isinstance(d.val, Ref):
            for lab, tt in (('time', sym('t_eval', real=True)), ('times', None)):
                s1 = fresh_log(d.st)
                if tt is None:
                    tt = X.lib.mkarr(s1, ((sym('nt', pos=True, int=True, lo=1),),), {(0,): sym('t_evals', axis=True, real=True)})
                s1.stack = ()
                for v in X.call_value(d.val, [tt], s1):
                    n2 += 1
                    for e in writes(v.st):
                        old = [b for b in e[1] if b in s1.heap]
                        if old:
                            bad = True
                            r.bad(f'{cls} evaluation writes', f'{site(e[3])}: evaluating the dense output changes existing data ({e[4]})', site(e[3]))
                    if isinstance(v.val, Arr) and v.kind == 'ok':
                        al = [b for b in X.lib.bufs(v.st, v.val.b) if b in mine]
                        sp = solver_paths(X, d.st)
                        for b in al:
                            if any(n in written for n in sp.get(b, ())):
                                bad = True
                                r.bad(f'{cls} evaluation returns live data', 'the result of an evaluation is an array of the solver that changes later', '')
    r.count('evaluations', n2)
    r.count('dense outputs', len(X.dense))
    if not bad:
        r.good(f'{n2} evaluations write to nothing; repeated dense output holds the same values')


def flowmu(x):
    return any(a.kind == 'mu' or a.kind == 'unk' for a in walk(x))


def same_buf(X, nk, name):
    return any(isinstance(nk[1], tuple) and nk[1][:1] == ('buf',) and nk[1][1] in X.bufs_of(h, X.attr(h, name)) for _, h, _ in X.good)


def content(X, st, v):
    out = {}
    if isinstance(v, Ref) and st.o(v.a).kind == 'inst':
        for n, x in st.o(v.a).d.items():
            for i, (key, p) in enumerate(X.scalars(st, x)):
                if key[:1] == ('buf',):
                    key = ('buf', key[2])
                out[(n, key)] = p
    return out


def fresh_object(X, n, cases):
    """does the replaced attribute hold different numbers than before?"""
    for k, h, o, d in cases:
        a = sorted(((str(key[2:] if key[:1] == ('buf',) else key), x.id) for key, x in X.scalars(o.st, X.attr(o.st, n))))
        b = sorted(((str(key[2:] if key[:1] == ('buf',) else key), x.id) for key, x in X.scalars(d.st, X.attr(d.st, n))))
        if a != b or not a:
            return True
    return False


def confirm(X, hit):
    """step from the generic states with marker values in the given attributes; which published values contain a marker?"""
    out = {}
    direct = {nk for nk in hit if nk[0] in ('t', 'y', 't_old', 'h_abs')}
    for nk in direct:
        out[nk] = nk[0]
    hit = hit - direct
    if not hit:
        return out
    for k, (inst, st) in enumerate(X.heads):
        s = fresh_log(st)
        marks = {}
        d = s.o(inst.a).d
        for nk in hit:
            n, key = nk
            v = d.get(n)
            lab = f'MARK!{n}!{key}'
            if key == () and isinstance(v, Poly):
                a = the_atom(v)
                m = sym(lab, **({x: a.info[x] for x in ('pos', 'nonneg', 'int', 'real', 'axis') if x in a.info} if a is not None and a.info else {}))
                s.w(inst.a).d[n] = m
            elif key and key[0] == 'buf' and key[1] in s.heap and key[2] in s.heap[key[1]].d:
                m = sym(lab, axis=True)
                s.w(key[1]).d[key[2]] = m
            else:
                continue
            marks[the_atom(m).id] = nk
        if not marks:
            continue
        s.ctx = None
        for o in X.R.step(inst, s):
            if o.kind not in ('ok', 'any'):
                continue
            d2 = o.st.o(inst.a).d
            for n in ('t', 'y', 'h_abs', 'h', 'f', 'yp', 'fn', 'absh', 'error_norm_old', 'y_old', 't_old', 'h_previous'):
                if n in d2:
                    for key, x in X.scalars(o.st, d2[n]):
                        for i in flow(x):
                            if i in marks:
                                out.setdefault(marks[i], n)
    return out
