"""Runs the tasks of one property check in parallel, replays counterexamples on the real code,
writes the evidence file and prints the verdict lines."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from fractions import Fraction

from . import env  # noqa
from . import sym

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(ROOT, 'evidence')


class Violation:
    """candidate counterexample: `inputs` is JSON-able and is handed to the check module's replay()"""
    def __init__(self, key, what, inputs):
        self.key, self.what, self.inputs = key, what, inputs


class Ctx:
    """handed to a task: collects obligations, counterexamples, witnesses"""
    def __init__(self, task, tier):
        self.task, self.tier = task, tier
        self.quick = tier != 'thorough'
        self.obligations = 0
        self.discharged = 0
        self.violations = []
        self.inconclusive = []
        self.witnesses = {}
        self.functions = set()
        self.bounds = {}
        self.maxviol = 3
        self.keys = set()

    # explorer configured for the tier
    def explorer(self, max_paths=20000, timeout_ms=None, **kw):
        return sym.Explorer(max_paths=max_paths, timeout_ms=timeout_ms or (5000 if self.quick else 20000),
                            deadline=time.time() + (400 if self.quick else 3000), **kw)

    def witness(self, name, n=1):
        self.witnesses[name] = self.witnesses.get(name, 0) + n

    def violation(self, key, what, inputs):
        if sum(1 for v in self.violations if v.key == key) < self.maxviol and len(self.violations) < 24:
            self.violations.append(Violation(key, what, inputs))

    def incon(self, msg):
        if len(self.inconclusive) < 20:
            self.inconclusive.append(msg)


def _run_task(arg):
    modname, tname, tier = arg
    t0 = time.time()
    mod = importlib.import_module(modname)
    ctx = Ctx(tname, tier)
    sym.STATS.__init__()
    err = None
    try:
        fn = dict(mod.tasks(tier))[tname]
        fn(ctx)
    except sym.EngineError as e:
        err = 'engine: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1800:])
    except Exception as e:
        err = 'error: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1800:])
    # replay in the same worker
    viol = []
    done = set()
    for v in ctx.violations:
        if v.key in done:
            continue
        try:
            ok, detail = mod.replay(v.inputs)
        except sym.EngineError as e:
            ok, detail = False, 'replay engine error %s' % e
        except Exception as e:
            ok, detail = False, 'replay crashed: %s\n%s' % (e, traceback.format_exc()[-1500:])
        if ok:
            done.add(v.key)
        viol.append(dict(key=v.key, what=v.what, inputs=v.inputs, reproduced=bool(ok), detail=detail))
    return dict(task=tname, err=err, stats=sym.STATS.as_dict(), obligations=ctx.obligations, discharged=ctx.discharged,
                inconclusive=ctx.inconclusive, witnesses=ctx.witnesses, functions=sorted(ctx.functions), bounds=ctx.bounds,
                violations=viol, wall=round(time.time() - t0, 2))


def jsonable(o):
    if isinstance(o, Fraction):
        return {'frac': '%d/%d' % (o.numerator, o.denominator)}
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if hasattr(o, 'item'):
        return o.item()
    return o


def unjson(o):
    if isinstance(o, dict):
        if set(o) == {'frac'}:
            return Fraction(o['frac'])
        return {k: unjson(v) for k, v in o.items()}
    if isinstance(o, list):
        return [unjson(v) for v in o]
    return o


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return []


def main(argv):
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    only = None
    if '--only' in argv:
        only = argv[argv.index('--only') + 1]
    modname = 'checks.%s' % pid.lower()
    t0 = time.time()
    mod = importlib.import_module(modname)
    tasks = [t for t, _ in mod.tasks(tier) if only is None or only in t]
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    if getattr(mod, 'ORDER', None):
        tasks.sort(key=mod.ORDER)
    budget = float(os.environ.get('VERIF_BUDGET', '0')) or (800 if tier == 'quick' else 5400)
    res = []
    if jobs == 1 or len(tasks) == 1:
        for t in tasks:
            res.append(_run_task((modname, t, tier)))
    else:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(jobs, maxtasksperchild=4)
        pend = {t: pool.apply_async(_run_task, ((modname, t, tier),)) for t in tasks}
        for t in tasks:
            left = t0 + budget - time.time()
            try:
                res.append(pend[t].get(timeout=max(1, left)))
            except mp.TimeoutError:
                res.append(dict(task=t, err='engine: task did not finish within the time budget', stats={}, obligations=0, discharged=0,
                                inconclusive=[], witnesses={}, functions=[], bounds={}, violations=[], wall=budget))
        pool.terminate()
        pool.join()
    stats = sym.Stats()
    for r in res:
        stats.add(r['stats'])
    kf = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    reported = []
    known = []
    bad = []
    for r in res:
        if r['err']:
            bad.append('%s: %s' % (r['task'], r['err']))
        for m in r['inconclusive']:
            bad.append('%s: %s' % (r['task'], m))
        for v in r['violations']:
            if not v['reproduced']:
                if any(w['key'] == v['key'] and w['reproduced'] for w in r['violations']):
                    continue
                bad.append('%s: counterexample did not reproduce on the real code (%s): %s [%s]' % (r['task'], v['key'], v['detail'], json.dumps(jsonable(v['inputs']))[:1500]))
                continue
            k = [x for x in kf if x['key'] == v['key']]
            if k:
                known.append((k[0], v))
            else:
                reported.append((r['task'], v))
        want = getattr(mod, 'WITNESSES', {})
        for pref, names in want.items():
            if r['task'].startswith(pref) and not r['err'] and not r['violations']:
                for n in names:
                    if not r['witnesses'].get(n):
                        bad.append('%s: reachability witness %r not seen (vacuous?)' % (r['task'], n))
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    lines = []
    n = 0
    for task, v in reported:
        path = os.path.join(EVID, 'replays', '%s-%d.json' % (pid, n))
        n += 1
        json.dump(dict(property=pid, module=modname, task=task, key=v['key'], what=v['what'], detail=v['detail'], inputs=jsonable(v['inputs'])),
                  open(path, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s: %s -- %s' % (task, v['what'], v['detail']))
    seen = set()
    for k, v in known:
        if k['key'] not in seen:
            seen.add(k['key'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for b in sorted(set(bad)):
        print('INCONCLUSIVE ' + (b if len(b) < 700 else b[:600] + ' ... ' + b[-90:]))
    for ln in lines:
        print(ln)
    obl = sum(r['obligations'] for r in res)
    dis = sum(r['discharged'] for r in res)
    funcs = sorted(set(f for r in res for f in r['functions']) | set(getattr(mod, 'FUNCTIONS', [])))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other',
              coverage=dict(
                  explanation=getattr(mod, 'EXPLANATION', mod.__doc__ or '').strip(),
                  functions_encoded=funcs, bounds=dict(getattr(mod, 'BOUNDS', {})),
                  tasks=[dict(task=r['task'], paths=r['stats'].get('paths', 0), queries=r['stats'].get('queries', 0),
                              solver_s=r['stats'].get('solver_s', 0), obligations=r['obligations'], discharged=r['discharged'],
                              witnesses=r['witnesses'], wall_s=r['wall'], complete=not (r['err'] or r['inconclusive'])) for r in res],
                  paths=stats.paths, queries_discharged=stats.queries, solver_s=round(stats.solver_s, 2), solver_unknown=stats.unknown,
                  obligations=obl, discharged=dis, known_findings=sorted(seen), inconclusive=bad[:20]),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2), violations=len(reported))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1, default=str)
    complete = sum(1 for r in res if not r['err'])
    print('%s %s: %d tasks (%d complete), %d paths, %d queries, %d/%d obligations discharged, solver %.1fs, wall %.1fs' %
          (pid, tier, len(res), complete, stats.paths, stats.queries, dis, obl, stats.solver_s, time.time() - t0))
    sys.stdout.flush()
    if reported:
        return 1
    if os.environ.get('VERIF_STRICT') and bad:
        return 2
    if complete == 0:
        return 2
    return 0


def replay_file(path):
    d = json.load(open(path))
    mod = importlib.import_module(d['module'])
    ok, detail = mod.replay(unjson(d['inputs']))
    print(('REPRODUCED ' if ok else 'not reproduced ') + str(detail))
    return 1 if ok else 0
