#!/usr/bin/env python3
"""check.py <property id> : decide one property by static analysis of /repo's source.

exit 0: no violation found; 1: VIOLATION line printed; 2: the analysis could not be carried out."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    # the same order of sets in each run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class JobTimeout(BaseException):
    pass


class Result:
    """what one job found"""

    def __init__(self):
        self.obl = []       # discharged obligations (text)
        self.viol = []      # dict(key=, msg=, site=)
        self.undec = []     # not decided (text)
        self.info = {}

    def good(self, text):
        self.obl.append(text)

    def bad(self, key, msg, site=''):
        if not any(v['key'] == key for v in self.viol):
            self.viol.append(dict(key=key, msg=msg, site=site))

    def open(self, text):
        self.undec.append(text)

    def count(self, name, n=1):
        self.info[name] = self.info.get(name, 0) + n


def work(job, q):
    label, mod, fn, kw, limit = job
    res = Result()
    t = time.time()

    def alarm(*a):
        raise JobTimeout()
    # the limit is on processor time, so that the outcome does not depend on what else runs; wall time is a backstop
    signal.signal(signal.SIGALRM, alarm)
    signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(min(3 * limit, limit + 300))
    err = None
    try:
        m = importlib.import_module(mod)
        getattr(m, fn)(res, **kw)
    except JobTimeout:
        err = f'analysis of {label} exceeded {limit} s'
    except RecursionError:
        err = f'analysis of {label}: recursion limit'
    except Exception as e:
        err = f'analysis of {label} failed: {type(e).__name__}: {e}'
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.alarm(0)
    q.put((label, dict(obl=res.obl, viol=res.viol, undec=res.undec, info=res.info, err=err, t=round(time.time() - t, 1))))


def run_jobs(jobs, nproc=8):
    """run each job in its own process"""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    todo = list(jobs)
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < nproc:
            j = todo.pop(0)
            p = ctx.Process(target=work, args=(j, q))
            p.start()
            live[j[0]] = (p, time.time(), j[4])
        try:
            lab, r = q.get(timeout=0.2)
            out[lab] = r
            p = live.pop(lab, None)
            if p:
                p[0].join()
        except Exception:
            pass
        for lab in list(live):
            if lab not in live:
                continue
            p, t, lim = live[lab]
            if not p.is_alive() and lab not in out:
                try:
                    while True:
                        l2, r = q.get(timeout=0.3)
                        out[l2] = r
                        if l2 in live and l2 != lab:
                            live.pop(l2)[0].join()
                except Exception:
                    pass
                if lab not in out:
                    out[lab] = dict(obl=[], viol=[], undec=[], info={}, err=f'analysis of {lab} ended without result', t=0)
                live.pop(lab, None)
            elif time.time() - t > min(3 * lim, lim + 300) + 60:
                p.kill()
                out[lab] = dict(obl=[], viol=[], undec=[], info={}, err=f'analysis of {lab} was stopped', t=lim)
                live.pop(lab, None)
    return out


def known(pid):
    f = os.path.join(HERE, 'known-findings.txt')
    r = {}
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('known: property=' + pid + ' '):
                # known: property=C08 key=<key> | text
                rest = line.split(' key=', 1)[1]
                k, _, text = rest.partition(' | ')
                r[k.strip()] = text.strip()
    return r


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    m = importlib.import_module('checks.' + pid.lower())
    jobs = [(j[0], m.__name__, j[1], j[2], j[3] if len(j) > 3 else 400) for j in m.jobs(tier)]
    names = [j[0] for j in jobs]
    assert len(set(names)) == len(names), 'duplicate job names'
    if os.environ.get('VERIF_ONLY'):
        jobs = [j for j in jobs if os.environ['VERIF_ONLY'] in j[0]]
    out = run_jobs(jobs)
    kn = known(pid)
    obl, viol, undec, info = [], {}, [], {}
    for lab in names:
        if lab not in out:
            continue
        r = out[lab]
        obl += [f'{lab}: {x}' for x in r['obl']]
        undec += [f'{lab}: {x}' for x in r['undec']]
        if r['err']:
            undec.append(r['err'])
        for v in r['viol']:
            viol.setdefault(v['key'], dict(v, jobs=[]))['jobs'].append(lab)
        for k, n in r['info'].items():
            info[k] = info.get(k, 0) + n
        if os.environ.get('VERIF_DEBUG'):
            print(f'  job {lab}: {r["t"]} s, {len(r["obl"])} discharged, {len(r["viol"])} violated, '
                  f'{len(r["undec"])} undecided {r["err"] or ""}', file=sys.stderr)
            for x in r['undec'][:6]:
                print('      ?', x[:300], file=sys.stderr)
    new = [v for k, v in viol.items() if k not in kn]
    old = [v for k, v in viol.items() if k in kn]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    total = len(obl) + len(undec) + len(viol)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=m.LEVEL,
              coverage=dict(explanation=m.RULE, evaluations=total, distinct_nontrivial=len(set(obl)), rule=m.RULE,
                            obligations=total, discharged=len(obl), undecided=undec[:200],
                            undecided_count=len(undec), jobs=len(jobs), analysed=info,
                            job_seconds={k: out[k]['t'] for k in names if k in out},
                            samples=obl[:40], violated=[dict(key=v['key'], msg=v['msg'][:600], site=v['site']) for v in new],
                            known_findings=[v['key'] for v in old]),
              assumptions=getattr(m, 'ASSUME', []), wall_s=round(time.time() - t0, 1), violations=len(new))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for v in old:
        print(f'KNOWN-FINDING: property={pid} {v["key"]}: {kn[v["key"]]}')
    print(f'{pid}: {len(obl)} obligations discharged, {len(undec)} undecided, {len(new)} violated, '
          f'{len(jobs)} analyses, {ev["wall_s"]} s')
    if new:
        rp = os.path.join(HERE, 'evidence', f'replay_{pid}.txt')
        with open(rp, 'w') as f:
            f.write(f'property {pid}; rerun: VERIF_TIER={tier} python3 {HERE}/check.py {pid}\n\n')
            for v in new:
                f.write(f'{v["key"]}\n  at {v["site"]}\n  {v["msg"]}\n  found by analysis of: {", ".join(v["jobs"][:12])}\n\n')
        for v in new[:20]:
            print(f'  {v["key"]} at {v["site"]}: {v["msg"][:300]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if not obl and not old:
        print(f'{pid}: no obligation could be analysed: {undec[:3]}')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
