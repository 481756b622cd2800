#!/usr/bin/env python3-vt
"""check.py <property>: decide one property of /repo's current tree.  Exit 0 quiet, exit 1 with a VIOLATION line."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, '.build')
T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv: TIER = 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
HARNESS_SECS = {'quick': 25, 'thorough': 180}
SEARCH_SECS = {'quick': 150, 'thorough': 300}
VERIFY_SECS = {'quick': 480, 'thorough': 420}

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def build_harness():
    """Build the replay binary against the current tree of /repo in a private copy of the harness crate."""
    env = {'CARGO_TARGET_DIR': os.path.join(BUILD, 'harness')}
    rc, out = sh(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, 'harness'), env=env)
    return os.path.join(BUILD, 'harness', 'debug', 'replay') if rc == 0 else None, out

def harness(binary, secs, seed, extra=()):
    cmd = [binary, PROP, '--secs', str(secs), '--threads', '8', '--seed', str(seed)] + list(extra)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 120)
    cases = 0
    for w in p.stdout.split():
        if w.startswith('cases='): cases = int(w[6:])
    bad = None if p.returncode == 0 else p.stdout
    if p.returncode not in (0, 1): bad = 'the replay program was ended (status %s): abort or memory exhaustion in the code under test\n%s' % (p.returncode, p.stdout[-2000:])
    return cases, bad

def replay_file(text):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.txt' % PROP)
    with open(p, 'w') as f: f.write(text)
    return p

def evidence(level, cov, assumptions, violations):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, PROP + '.json'), 'w') as f:
        json.dump({'property': PROP, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
                   'assumptions': assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': violations}, f, indent=1)

TRUSTED = [
    'rustc (nightly) front end: the THIR that the driver in extract/ dumps is the code that is compiled',
    'thirv/engine.py and thirv/infer.py: symbolic evaluation of THIR and generation of obligations (every inferred loop invariant is itself an obligation)',
    'thirv/models.py: assumed contracts of std, rand, anyhow and num_traits functions (listed under external_models)',
    'z3 4.x: an unsat answer is taken as proof',
    'f32 arithmetic: axioms of thirv/theory.py (listed under axioms), over an uninterpreted sort with an order key; exp, ln, log2 and powf are monotone/ranged as stated there',
    'memory allocation succeeds; vectors hold at most isize::MAX bytes',
]
def say_jobs(rs):
    out = []
    for r in rs:
        for o in r['obs']:
            if not o['ok']: out.append('obligation not discharged: job %s: "%s" [%s] %s: verifier says %s' % (r['job'], o['name'], o['kind'], o['where'], o['why']))
        for f in r.get('failed') or []: out.append('   goal of "%s": %s\n   verdict %s' % (f['name'], f['goal'], f['verdict']))
        if r.get('vacuous'): out.append('job %s: the hypotheses are contradictory' % r['job'])
    return out

def main():
    sys.path.insert(0, os.path.join(HERE, 'thirv'))
    import verify, cover
    os.makedirs(BUILD, exist_ok=True)
    binary, out = build_harness()
    if binary is None: log('harness does not build against /repo\n' + out[-3000:])
    full, note = cover.COVER[PROP]
    rs = []; why = None
    if verify.jobs_for(PROP)[0]:
        try:
            thir, why = verify.extract(REPO, BUILD)
            if thir: rs = verify.verify(PROP, thir, BUILD, VERIFY_SECS[TIER], log)
        except subprocess.TimeoutExpired as ex: why = str(ex)
        if why: log('no verification conditions: ' + why)
    failed = [r for r in rs if r['status'] == 'failed']
    unsup = [r for r in rs if r['status'] == 'unsupported'] or why
    nob = sum(len(r['obs']) for r in rs); nok = sum(o['ok'] for r in rs for o in r['obs'])
    cov = {'obligations': nob, 'discharged': nok, 'checker_cmd': 'python3-vt check.py %s (z3 through thirv/)' % PROP, 'trusted_base': TRUSTED,
           'obligations_by_kind': {}, 'back_end': 'z3 (Python binding) for every obligation', 'invariant_obligations': sum(r['soft'] for r in rs),
           'solver_seconds': round(sum(o['secs'] for r in rs for o in r['obs']) + sum(r['softsecs'] for r in rs), 2),
           'jobs': [{k: r.get(k) for k in ('job', 'root', 'beh', 'status', 'unsup', 'rounds', 'vacchecks')} | {'obligations': len(r['obs']), 'secs': round(r['secs'], 2)} for r in rs],
           'functions': sorted({f for r in rs for f in r.get('fns', [])}), 'contracts_used': sorted({f for r in rs for f in r.get('contracts', [])}),
           'external_models': sorted({f for r in rs for f in r.get('models', [])}), 'axioms': sorted({f for r in rs for f in r.get('axioms', [])}),
           'coverage_note': note}
    for r in rs:
        for o in r['obs']: cov['obligations_by_kind'][o['kind']] = cov['obligations_by_kind'].get(o['kind'], 0) + 1
    if TIER == 'thorough' and rs and not failed:
        import thorough
        cov['thorough'] = thorough.run(rs, BUILD, log)
    if binary is None and (unsup or not rs or not full):
        if failed: finish_failed(rs, cov, 'the replay program does not build against this tree\n' + out[-2000:])
        sys.exit(2)
    # the bounded stand-in and witness search on the real library
    cases = 0; bad = None
    if binary:
        secs = HARNESS_SECS[TIER] * (2 if unsup else 1)
        cases, bad = harness(binary, secs, SEED)
        log('bounded check of the real library: %d cases' % cases, 'FAILED' if bad else 'ok')
        if failed and not bad:
            left = max(10, min(SEARCH_SECS[TIER], 840 - (time.time() - T0)))
            c2, bad = harness(binary, int(left), SEED + 77)
            cases += c2
            log('search for a failing input: %d cases' % c2, 'FOUND' if bad else 'none found')
    cov['evaluations'] = cases
    if bad:
        p = replay_file('\n'.join(say_jobs(rs)) + '\n' + bad)
        evidence('other', dict(cov, explanation='the real library fails on the replayed case'), [], 1)
        print(bad)
        for l in say_jobs(rs): print(l)
        print('VIOLATION property=%s replay=%s' % (PROP, p))
        sys.exit(1)
    if failed: finish_failed(rs, cov, 'no failing input found in %d cases' % cases)
    if full and rs and not unsup: evidence('proof', cov, ASSUME, 0)
    else:
        x = 'partly proved: %d of %d obligations discharged by z3 (%s); the rest is a bounded stand-in: the reference in harness/ against the real library on %d generated cases, not a proof' % (nok, nob, note, cases)
        if unsup and rs: x = 'outside the verifier on this tree: %s. ' % '; '.join('%s (%s)' % (r['job'], r['unsup']) for r in rs if r['status'] == 'unsupported') + x
        if not rs: x = 'bounded stand-in only: the reference in harness/ against the real library on %d generated cases, not a proof (%s)' % (cases, note)
        evidence('other', dict(cov, explanation=x), ASSUME, 0)
    log('held')
ASSUME = ['lengths of the lists under the value contracts ("ok" behaviour) are at most 2^31-1', 'see trusted_base']
def finish_failed(rs, cov, why):
    l = say_jobs(rs)
    p = replay_file('\n'.join(l) + '\n' + why + '\n')
    evidence('other', dict(cov, explanation='obligations not discharged'), [], 1)
    for x in l: print(x)
    print('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, p))
    sys.exit(1)

if __name__ == '__main__': main()
