"""Native replay.  usage: replay.py FILE.json            one counterexample (human use; exit 1 if it fails)
                         replay.py --batch IN.jsonl OUT.jsonl   (used by the driver)
Runs a harness with concrete values against the real code: /repo's package, and a freshly built C extension from
SX_CEXT (a directory) when the backend is 'c'."""
import sys, os, json, subprocess, time, signal, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')


def run_case(case, timeout=20):
    from sx import conc
    import importlib
    mod = importlib.import_module('harness.' + case['module'])
    h = next(x for x in mod.CHECKS if x.name == case['harness'])
    backend = case['backend']
    scans = [None]
    if case.get('scan') and h.scan:
        name, lo, hi = h.scan
        scans += [{name: i} for i in range(lo, hi + 1)]
    last = ('ok', '')
    for sc in scans:
        def alarm(*a): raise TimeoutError('replay timeout')
        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            ctx = conc.ConcCtx(case['values'], backend, sc)
            if h.setup: h.setup_state = h.setup(backend, **case['params'])
            h.fn(ctx, **case['params'])
            r = ('ok', '')
        except conc.CheckFailed as e: r = ('fail', e.label)
        except conc.Vacuous: r = ('vacuous', '')
        except TimeoutError: r = ('fail', 'does not terminate')
        except Exception as e: r = ('fail', 'unexpected %s: %s [%s]' % (type(e).__name__, e, traceback.format_exc(limit=-2).replace('\n', ' | ')))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if r[0] == 'fail': return r
        if sc is None: last = r
    return last


def main():
    sys.path.insert(0, VERIF)
    if sys.argv[1] == '--batch':
        sys.path.insert(0, REPO)
        if os.environ.get('SX_CEXT'): sys.path.insert(0, os.environ['SX_CEXT'])
        sys.dont_write_bytecode = True
        with open(sys.argv[2]) as f: cases = [json.loads(l) for l in f]
        with open(sys.argv[3], 'a') as out:
            for c in cases:
                out.write(json.dumps(dict(id=c['id'], start=1)) + '\n'); out.flush()
                r = run_case(c)
                out.write(json.dumps(dict(id=c['id'], result=r[0], label=r[1])) + '\n'); out.flush()
        return 0
    from sx import native
    with open(sys.argv[1]) as f: case = json.load(f)
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='sxreplay')
    try:
        r = native.replay([dict(case, id=0)], d)[0]
    finally:
        shutil.rmtree(d)
    print('harness %s %s params=%s backend=%s' % (case['module'], case['harness'], case['params'], case['backend']))
    print('values: %s' % json.dumps(case['values']))
    print('result: %s %s' % r)
    return 1 if r[0] in ('fail', 'crash') else 0


if __name__ == '__main__':
    sys.exit(main())
