"""Decide a property: extract THIR from /repo, prove the obligations tagged with it (and those of every contract used)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable

def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def nightly_lib():
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
    return os.path.join(out.strip(), 'lib')

def extract(repo, build):
    """Dump the typed bodies of every function of the crate: -> (path, None) or (None, why)."""
    drv = os.path.join(build, 'driver')
    env = {'CARGO_TARGET_DIR': drv}
    rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'extract', 'driver'), env=env)
    if rc: return None, 'driver does not build\n' + out[-3000:]
    dst = os.path.join(build, 'thir.json')
    if os.path.exists(dst): os.unlink(dst)
    tgt = os.path.join(build, 'thirt')
    shutil.rmtree(tgt, ignore_errors=True)      # a fresh analysis of the current tree on every run
    env = {'THIRDUMP_CRATE': 'llm_samplers', 'THIRDUMP_OUT': dst, 'CARGO_TARGET_DIR': tgt,
           'RUSTC_WORKSPACE_WRAPPER': os.path.join(drv, 'release', 'thirdump'), 'LD_LIBRARY_PATH': nightly_lib()}
    rc, out = sh(['cargo', '+nightly', 'check', '--lib', '--offline', '--quiet'], cwd=repo, env=env)
    if rc or not os.path.exists(dst): return None, 'extraction failed\n' + out[-3000:]
    return dst, None

def jobs_for(prop):
    sys.path.insert(0, HERE)
    import contracts
    return [j['name'] for j in contracts.JOBS if prop in j['props']], contracts.CON_JOBS, {j['name'] for j in contracts.JOBS}

def verify(prop, thir, build, secs, log=print, cores=8):
    """-> list of job results."""
    names, con_jobs, allj = jobs_for(prop)
    t0 = time.time()
    out = os.path.join(build, 'jobs'); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    queue = [(n, prop) for n in names]; seen = set(names); running = []; done = []
    while queue or running:
        while queue and len(running) < cores:
            n, tags = queue.pop(0)
            f = os.path.join(out, re.sub(r'\W', '_', n) + '.json')
            w = max(1, min(8, cores // max(1, len(running) + len(queue) + 1)) + 1)
            left = max(20, secs - (time.time() - t0))
            p = subprocess.Popen([PY, os.path.join(HERE, 'onejob.py'), thir, n, tags, str(w), str(left), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            running.append((n, p, f))
        time.sleep(0.05)
        for it in list(running):
            n, p, f = it
            over = time.time() - t0 > secs
            if p.poll() is None and not over: continue
            running.remove(it)
            if p.poll() is None:
                try: os.killpg(p.pid, 9)
                except ProcessLookupError: pass
                p.wait()
            if os.path.exists(f): r = json.load(open(f))
            else: r = dict(job=n, status='unsupported', unsup='time budget exceeded' if over else 'prover ended: ' + (p.stdout.read() or '')[-600:], obs=[], rounds=0, secs=0, soft=0, softsecs=0, axioms=[])
            done.append(r)
            log('  %-28s %-12s %3d obligations, %d failed, %.1f s %s' % (n, r['status'], len(r['obs']), sum(not o['ok'] for o in r['obs']), r['secs'], (r['unsup'] or '').split('\n')[0][:150]))
            beh = r.get('beh')
            for c in r.get('contracts', []):
                b = con_jobs.get(c)
                if b is None: continue
                m = b + '/any' if beh == 'any' else b
                if m in allj and m not in seen: seen.add(m); queue.append((m, 'ALL'))
    return done
if __name__ == '__main__':
    b = os.path.join(VERIF, '.build'); os.makedirs(b, exist_ok=True)
    t = time.time()
    thir, why = extract(sys.argv[2] if len(sys.argv) > 2 else '/repo', b)
    print('extract %.1f' % (time.time() - t), why)
    for p in sys.argv[1].split(','):
        t = time.time()
        rs = verify(p, thir, b, 400)
        print(p, '%.1f s' % (time.time() - t), all(r['status'] == 'ok' for r in rs))
