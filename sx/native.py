"""Runs native replays in subprocesses (project interpreter, unmodified code, freshly built extension)."""
import os, sys, json, time, subprocess, tempfile, shutil, concurrent.futures
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY): PY = sys.executable


def build_ext(dest, asan=False):
    """Compile /repo/pvectorcmodule.c into dest/pvectorc.so with the interpreter's own flags."""
    os.makedirs(dest, exist_ok=True)
    q = "import sysconfig,json;print(json.dumps([sysconfig.get_paths()['include'],sysconfig.get_config_var('EXT_SUFFIX')]))"
    inc, suf = json.loads(subprocess.check_output([PY, '-c', q]))
    out = os.path.join(dest, 'pvectorc' + suf)
    cmd = ['gcc', '-shared', '-fPIC', '-g', '-O2' if not asan else '-O1', '-fno-strict-overflow', '-fwrapv', '-DNDEBUG', '-w', '-I' + inc]
    if asan: cmd += ['-fsanitize=address', '-fno-omit-frame-pointer']
    cmd += [os.path.join(REPO, 'pvectorcmodule.c'), '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise RuntimeError('cannot build pvectorc: ' + p.stderr[-2000:])
    return out


def replay(cases, scratch, timeout=60, asan=False, until=None, jobs=1):
    """cases: dicts with id, module, harness, params, values, backend.  Returns {id: (result, label)}.  A single case gets `timeout`
    seconds of its own; cases not reached by the time `until` have no entry in the result."""
    res = {}
    work = []
    for backend in sorted({c['backend'] for c in cases}):
        todo = [c for c in cases if c['backend'] == backend]
        env = dict(os.environ, PYTHONHASHSEED='0', SX_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYRSISTENT_NO_C_EXTENSION', None); env.pop('PYTHONPATH', None)
        env.pop('SX_CEXT', None)
        if backend == 'py':
            env['PYRSISTENT_NO_C_EXTENSION'] = '1'
        if backend in ('c', 'both'):
            d = os.path.join(scratch, 'cext_asan' if asan else 'cext')
            if not os.path.isdir(d): build_ext(d, asan)
            env['SX_CEXT'] = d
            if asan:
                lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
                env.update(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66', PYTHONMALLOC='malloc')
        k = max(1, min(jobs, len(todo) // 40))
        work += [(env, todo[n::k]) for n in range(k)]
    if len(work) == 1: _shard(work[0], scratch, timeout, until, res)
    else:
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for f in [ex.submit(_shard, w, scratch, timeout, until, res) for w in work]: f.result()
    return res


def _shard(work, scratch, timeout, until, res):
    env, todo = work
    while todo:
        left = until - time.time() if until else 1e9
        if left <= 0: return
        p = _batch(env, todo, scratch, timeout if len(todo) == 1 else min(left, 600))
        res.update(p[0])
        if p[1] == 'done': return
        if p[2] is None: raise RuntimeError('replay process failed: %s' % (p[3],))
        sid = p[2]
        if p[1] == 'timeout' and len(todo) > 1:
            # out of time somewhere in the batch: the case under way gets a run of its own before it is judged
            one = [c for c in todo if c['id'] == sid]
            if until and time.time() >= until: return
            q = _batch(env, one, scratch, timeout)
            res.update(q[0])
            if q[1] != 'done': res[sid] = ('crash', 'does not terminate' if q[1] == 'timeout' else q[3])
        else:
            res[sid] = ('crash', 'does not terminate' if p[1] == 'timeout' else p[3])
        todo = [c for c in todo if c['id'] not in res]


def _batch(env, todo, scratch, timeout):
    """One process: (results, 'done' | 'timeout' | 'died', case under way, message)."""
    fd, fin = tempfile.mkstemp(dir=scratch, suffix='.in'); os.close(fd)
    fd, fout = tempfile.mkstemp(dir=scratch, suffix='.out'); os.close(fd)
    with open(fin, 'w') as f:
        for c in todo: f.write(json.dumps(c) + '\n')
    how = 'died'
    try:
        p = subprocess.run([PY, os.path.join(VERIF, 'sx', 'replay.py'), '--batch', fin, fout], env=env, capture_output=True,
                           text=True, timeout=timeout, cwd=scratch)
        rc, err = p.returncode, p.stderr
        if rc == 0: how = 'done'
    except subprocess.TimeoutExpired:
        how, rc, err = 'timeout', -1, 'timeout'
    res, started = {}, None
    with open(fout) as f:
        for l in f:
            if not l.endswith('\n'): break
            r = json.loads(l)
            if 'start' in r: started = r['id']
            else:
                res[r['id']] = (r['result'], r['label']); started = None
    if how == 'timeout' and started is None:      # between two cases
        started = next((c['id'] for c in todo if c['id'] not in res), None)
        if started is None: how = 'done'
    return res, how, started, 'process died, rc=%s %s' % (rc, _asan(err))


def _asan(err):
    for l in err.splitlines():
        if 'ERROR: AddressSanitizer' in l or 'Fatal Python error' in l: return l.strip()[:200]
    return err.strip()[-200:]
