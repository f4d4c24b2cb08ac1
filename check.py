#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]
Decides one property by symbolic execution of /repo's current code.  Run with python3-vt (needs z3)."""
import os, sys, json, time, argparse, tempfile, shutil, importlib, multiprocessing, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from sx import core, instr, sym, native

KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
_mod = None
_deadline = None
_per_task = 300
_jobs = _total = 1
_half = 0


def worker(job):
    i, hname, params, backend, seed, mw, rank = job
    try:
        h = next(x for x in _mod.CHECKS if x.name == hname)
        instr.COVERED.clear()
        t = time.time()
        now = time.time()
        # once half of the time is gone: a fair share of what is left, so that no task starves the ones behind it
        share = 4 * (_deadline - now) * _jobs / max(1, _total - rank) if now > _half else _per_task
        r = sym.run_task(h, params, backend, min(_deadline, now + min(_per_task, max(3.0, share))), seed=seed, max_witness=mw)
        r['wall'] = time.time() - t
        fn = set(instr.COVERED)
        if backend in ('c', 'both'):
            from sx import cbridge
            fn |= {'pvectorcmodule.c:' + f for f in cbridge.covered()}
        r['functions'] = sorted(fn)
        return i, r
    except BaseException as e:
        return i, dict(error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]))


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known': out.append(d)
    return out


def match_known(ks, hname, params, label):
    for k in ks:
        if k['harness'] == hname and label.startswith(k['label']) and all(params.get(a) == b for a, b in k.get('params', {}).items()):
            return k


def main():
    global _mod, _deadline, _per_task, _half
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SX_JOBS', '0')) or os.cpu_count() or 4)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--task', type=int, default=None)
    ap.add_argument('-k', action='store_true', help='development: list all violations')
    ap.add_argument('--strict', action='store_true', help='exit 2 if anything stayed undecided')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget = a.budget or (600 if a.tier == 'quick' else 3 * 3600)
    _deadline = t0 + budget; _half = t0 + budget / 2
    _per_task = budget / (4 if a.tier == 'quick' else 2)
    prop = a.prop
    scratch = tempfile.mkdtemp(prefix='sx_%s_' % prop)
    try:
        rc = run(prop, a, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, a, seed, t0, scratch):
    global _mod, _jobs, _total
    instr.install()
    core.ENG = core.Engine()       # module-level code of harnesses may not use it, but helpers expect one
    modname = prop.lower()
    _mod = importlib.import_module('harness.' + modname)
    checks = [h for h in _mod.CHECKS if not a.only or h.name == a.only]
    jobs = []
    for h in checks:
        for p in h.tasks(a.tier):
            for b in h.backends:
                jobs.append((len(jobs), h.name, p, b, seed, h.max_witness))
    if a.task is not None: jobs = [j for j in jobs if j[0] == a.task]
    if any(j[3] in ('c', 'both') for j in jobs):
        from sx import cbridge
        cbridge.prepare(scratch)
    if any('c' in h.native for h in checks):
        native.build_ext(os.path.join(scratch, 'cext'))
    hs = {h.name: h for h in checks}
    known = known_findings(prop)
    results, errors, spurious = {}, [], []
    known_hit = []
    violation = None
    byid = {j[0]: j for j in jobs}

    def order(j): return -j[0]      # task lists are written in increasing size: start the large ones first
    todo = [j + (n,) for n, j in enumerate(sorted(jobs, key=order))]
    _jobs, _total = min(a.jobs, max(1, len(jobs))), len(jobs)
    pool = multiprocessing.get_context('fork').Pool(min(a.jobs, max(1, len(jobs))), maxtasksperchild=None)
    stream = pool.imap_unordered(worker, todo, chunksize=1)
    try:
        while True:
            try: i, r = stream.next(timeout=max(1.0, _deadline + 30 - time.time()))
            except StopIteration: break
            except multiprocessing.TimeoutError:
                errors.append('%d tasks gave no answer in time' % (len(jobs) - len(results)))
                break
            j = byid[i]
            results[i] = r
            if 'error' in r:
                errors.append('%s %s %s: %s' % (j[1], j[2], j[3], r['error']))
                continue
            if a.v:
                s = r['stats']
                print('  [%3d] %-24s %-40s %-4s %s paths=%d br=%d q=%d solver=%.1fs wall=%.1fs viol=%d' % (
                    i, j[1], json.dumps(j[2])[:60], j[3], r['status'], s['paths'], s['branches'], s['queries'], s['solver_s'], r['wall'], len(r['violations'])), flush=True)
            for v in r['violations']:
                h = hs[j[1]]
                k = match_known(known, j[1], j[2], v['label'])
                if k:
                    if k not in known_hit: known_hit.append(k)
                    continue
                rep = confirm(prop, modname, h, j, v, scratch, a.v)
                if rep:
                    if a.k: print('  FOUND', j[1], j[2], j[3], rep[1][:300], flush=True); continue
                    violation = rep; break
                spurious.append('%s %s %s: %s values=%s' % (j[1], j[2], j[3], v['label'], json.dumps(v['values'])[:1500]))
            if violation: break
    finally:
        pool.terminate(); pool.join()
    validated = 0
    nwit = 0
    if violation is None:
        # replay sampled path witnesses natively on every native backend
        cases = []
        meta = {}
        for i, r in results.items():
            if 'error' in r: continue
            j = byid[i]; h = hs[j[1]]
            nat = h.native if j[3] == 'py' else (('c',) if j[3] == 'c' else ('both',))
            for w in r['witnesses']:
                for b in nat:
                    cid = len(cases)
                    cases.append(dict(id=cid, module=modname, harness=j[1], params=j[2], values=w, backend=b))
                    meta[cid] = (j, w, b)
        rep = native.replay(cases, scratch, until=max(_deadline, time.time()) + 90, jobs=a.jobs) if cases else {}
        nwit = len(cases)
        for cid, (res, lab) in sorted(rep.items()):
            if res == 'ok': validated += 1
            elif res in ('fail', 'crash'):
                j, w, b = meta[cid]
                if match_known(known, j[1], j[2], lab): continue
                path = save(prop, modname, j, dict(label=lab, values=w), b, scan=False)
                violation = (path, lab); break
    wall = time.time() - t0
    write_evidence(prop, a.tier, seed, checks, byid, results, validated, nwit, wall, violation, known_hit, errors, spurious)
    for k in known_hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violation:
        print('VIOLATION property=%s replay=%s' % (prop, violation[0]))
        print('  ' + violation[1])
        return 1
    for e in errors[:5]: print('UNDECIDED (engine) ' + e)
    for e in spurious[:5]: print('UNDECIDED (counterexample not reproduced on the real code) ' + e)
    good = [r for r in results.values() if 'error' not in r]
    if (errors or spurious) and (a.strict or not good): return 2
    inc = [byid[i] for i, r in results.items() if r.get('status') != 'complete']
    for j in inc[:10]: print('INCOMPLETE %s %s %s' % (j[1], j[2], j[3]))
    tot = sum(r['stats']['paths'] for r in good)
    print('%s held: %d tasks, %d paths, %d witnesses replayed natively, %.1f s%s' % (prop, len(results), tot, validated, wall,
          ', %d tasks cut by the time budget' % len(inc) if inc else ''))
    return 0


def save(prop, modname, j, v, backend, scan):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%s.json' % (prop, j[1]))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, module=modname, harness=j[1], params=j[2], backend=backend, label=v['label'], values=v['values'],
                       scan=scan, how='python3 /verif/sx/replay.py ' + path), f, indent=1)
    return path


def confirm(prop, modname, h, j, v, scratch, verbose):
    """Replay a counterexample on the real code."""
    bs = list(h.native) if j[3] == 'py' else (['c'] if j[3] == 'c' else ['both'])
    for b in bs:
        for asan in ((False, True) if b in ('c', 'both') and j[3] in ('c', 'both') else (False,)):
            case = dict(id=0, module=modname, harness=j[1], params=j[2], values=v['values'], backend=b, scan=bool(h.scan))
            try:
                r = native.replay([case], scratch, timeout=60, asan=asan)[0]
            except RuntimeError as e:
                r = ('error', str(e))
            if verbose: print('   candidate %s (%s%s): %s -> %s' % (v['label'], b, ' asan' if asan else '', json.dumps(v['values'])[:600], r), flush=True)
            if r[0] in ('fail', 'crash'):
                return (save(prop, modname, j, v, b, scan=bool(h.scan)), 'symbolic: %s; native (%s): %s' % (v['label'], b, r[1]))
    return None


def write_evidence(prop, tier, seed, checks, byid, results, validated, nwit, wall, violation, known_hit, errors, spurious):
    good = {i: r for i, r in results.items() if 'error' not in r}
    S = lambda f: sum(r['stats'][f] for r in good.values())
    funcs = sorted({f for r in good.values() for f in r['functions']})
    per = {}
    for i, r in good.items():
        j = byid[i]
        p = per.setdefault(j[1], dict(tasks=0, paths=0, queries=0, solver_s=0.0, assertions=0, complete=0, assertion_labels=set()))
        p['tasks'] += 1; p['paths'] += r['stats']['paths']; p['queries'] += r['stats']['queries']
        p['solver_s'] = round(p['solver_s'] + r['stats']['solver_s'], 3); p['assertions'] += r['stats']['asserts']
        p['complete'] += r['status'] == 'complete'
        p['assertion_labels'] |= set(r['labels'])
    for p in per.values(): p['assertion_labels'] = sorted(p['assertion_labels'])[:80]
    samples = []
    for i in sorted(good)[:: max(1, len(good) // 6)][:6]:
        j = byid[i]
        if good[i]['witnesses']:
            samples.append(dict(harness=j[1], params=j[2], backend=j[3], model=_short(good[i]['witnesses'][0])))
    cov = dict(states=S('paths'), transitions=S('branches'), traces_validated_against_impl=validated, samples=samples,
               exhaustive=all(r['status'] == 'complete' for r in good.values()) and not errors and not spurious, undecided=(errors + spurious)[:20],
               queries_discharged=S('queries'), solver_seconds=round(S('solver_s'), 2), assertions_checked=S('asserts'),
               assertions_symbolic=S('asserts_symbolic'), unknown_answers=S('unknown'), tasks=len(results), tasks_complete=sum(r['status'] == 'complete' for r in good.values()),
               functions_encoded=funcs, harnesses=per,
               bounds={h.name: h.note for h in checks},
               explanation='states = feasible symbolic paths executed to the end; transitions = solver-decided branches; '
                           'each path ends with one query per batch of assertions (path condition and negated assertions).')
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(wall, 2),
              violations=1 if violation else 0,
              assumptions=getattr(_mod, 'ASSUMPTIONS', []) + ['z3 is sound; the symbolic value classes and AST rewriting of /verif/sx (and, for the C vector, '
                          'the LLVM-IR interpreter and the CPython API model) represent the interpreter faithfully: sampled path models are replayed natively on every run'])
    if known_hit: cov['known_findings'] = [k['what'] for k in known_hit]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def _short(w):
    return {k: (v if len(v) < 40 else dict(list(v.items())[:40])) for k, v in w.items()}


if __name__ == '__main__':
    main()
