"""Discharging obligations: loop-invariant fixpoint (Houdini) and final proof, in parallel."""
import json, os, sys, time, pickle, traceback
import z3
from values import *
import theory as T, engine, models
from engine import Engine, Prog, State, Oblig

def facts(pc):
    out = []
    while pc is not None:
        out.append(pc[1]); pc = pc[0]
    out.reverse()
    return out

COMMON = {'key', 'isnan', 'tkey', 'fadd', 'fsub', 'fmul', 'fdiv', 'fexp', 'fln', 'fabs', 'fneg', 'i2f', 'memb', 'fpowf'}
def syms(f): return {s for s in T.symbols(f) if s not in COMMON and s not in T.FC}
def relevant(hyps, goal, depth):
    """Hypotheses within depth symbol-sharing steps of the goal (dropping hypotheses is sound)."""
    cur = syms(goal)
    hs = [(h, syms(h)) for h in hyps]
    if depth == 1: return [h for h, s in hs if s <= cur]
    for _ in range(depth - 1):
        nxt = set(cur)
        for h, s in hs:
            if s & cur and (T.has_quant(h) or len(s) <= 6): nxt |= s
        if nxt == cur: break
        cur = nxt
    return [h for h, s in hs if not s or (s <= cur)]
# (depth of the relevance filter, with the axioms of arithmetic, mbqi, share of the time limit)
PLANS = {0: [('qf', False, False, .3)],
         1: [(1, False, False, .15), (1, True, False, .2), (2, True, False, .4), (0, True, False, .6), (0, False, True, .3)],
         2: [(1, False, False, .1), (1, True, False, .1), (2, False, False, .15), (2, True, False, .2), (0, False, False, .2), (0, True, False, .5), (0, False, True, .3), (1, True, True, .3), (0, True, True, 1.)]}
def solve(hyps, goal, timeout_ms, tries=1):
    """-> (accepted, seconds, axioms used, reason)"""
    t0 = time.time()
    if z3.is_true(goal): return True, 0.0, set(), 'trivial'
    why = ''; allused = set(); cache = {}
    for depth, axs, mbqi, share in PLANS[tries]:
        if (depth, axs) not in cache:
            hs = [h for h in hyps if not T.has_quant(h)] if depth == 'qf' else relevant(hyps, goal, depth) if depth else hyps
            cache[depth, axs] = T.query(hs, goal, axs)
        fs, used = cache[depth, axs]
        s = z3.Solver()
        # a deterministic budget; the wall clock is only a backstop
        s.set('rlimit', int(timeout_ms * share * 3000)); s.set('timeout', max(1000, int(timeout_ms * share * 6)))
        if not mbqi: s.set('mbqi', False)
        for f in fs: s.add(f)
        r = s.check()
        allused = used
        if r == z3.unsat: return True, time.time() - t0, used, ''
        why = s.reason_unknown() if r == z3.unknown else 'sat'
    return False, time.time() - t0, allused, why

def split_goal(hyps, goal):
    """Conjuncts of a goal as separate goals."""
    if z3.is_and(goal):
        for c in goal.children(): yield from split_goal(hyps, c)
    else: yield goal

def prove(ob, timeout_ms, tries):
    hyps = facts(ob.hyps)
    tot = 0.0; used = set()
    for g in split_goal(hyps, ob.goal):
        ok, sec, u, why = solve(hyps, g, timeout_ms, tries)
        tot += sec; used |= u
        if not ok: return False, tot, used, why
    return True, tot, used, ''

def pmap(f, n, workers):
    """Run f(i) for i < n in forked workers -> list of results."""
    if n == 0: return []
    workers = max(1, min(workers, n))
    res = [None] * n
    if workers == 1: return [f(i) for i in range(n)]
    pipes = []
    # dynamic distribution: a shared counter through a pipe of indices
    r0, w0 = os.pipe()
    os.set_blocking(w0, False)
    order = b''.join(i.to_bytes(4, 'little') for i in range(n))
    assert len(order) <= 65536 - 4
    os.write(w0, order); os.close(w0)
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            try:
                while True:
                    b = os.read(r0, 4)
                    if len(b) < 4: break
                    i = int.from_bytes(b, 'little')
                    try: out.append((i, f(i)))
                    except Exception as ex: out.append((i, ('exc', repr(ex), traceback.format_exc()[-400:])))
                with os.fdopen(w, 'wb') as h: pickle.dump(out, h)
            finally: os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    os.close(r0)
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as h: data = h.read()
        os.waitpid(pid, 0)
        if data:
            for i, v in pickle.loads(data): res[i] = v
    return res

class Result: pass

def generate(job, prog, contracts, cands):
    eng = Engine(prog, contracts, job['root'], job['beh'], models, cands, job.get('opts'))
    models.USED.clear()
    st = State({}, None)
    job['run'](eng, st)
    return eng

LADDER = [(300, 6000), (1500, 20000)]      # (budget for invariant candidates, for obligations), retried when something fails
def run_job(job, prog, contracts, workers=8, tags=None, verbose=False, deadline=None, ladder=None):
    """tags: only obligations with one of these tags are proved (None: all)."""
    R = None
    t0 = time.time()
    for soft_ms, hard_ms in ladder or LADDER:
        if R is not None and deadline and time.time() - t0 > .35 * (deadline - t0): break
        R = run_once(job, prog, contracts, workers, tags, soft_ms, hard_ms, verbose, deadline)
        if R.status == 'ok': break
        if R.status == 'unsupported' and not R.retry: break
    R.secs = time.time() - t0
    return R
def run_once(job, prog, contracts, workers, tags, soft_ms, hard_ms, verbose, deadline):
    R = Result()
    R.name = job['name']; R.status = 'ok'; R.t0 = time.time(); R.retry = False
    cands = {}
    rounds = 0
    R.unsup = None
    R.softsecs = 0.0
    try:
        while True:
            rounds += 1
            eng = generate(job, prog, contracts, cands)
            soft = eng.soft
            t1 = time.time()
            res = pmap(lambda i: prove(soft[i][2], soft_ms, 0 if soft[i][1].startswith('g:') else 1)[:2], len(soft), workers)
            bad = [i for i, r in enumerate(res) if r is None or r[0] is not True]
            R.softsecs += sum(r[1] for r in res if r is not None and r[0] in (True, False))
            if verbose: print('  round', rounds, 'soft', len(soft), 'bad', len(bad), 'hard', len(eng.obs), '%.1fs' % (time.time() - t1), file=sys.stderr)
            if verbose > 1:
                for i in bad: print('     drop', soft[i][0], soft[i][1], soft[i][2].name, res[i], file=sys.stderr)
            if not bad: break
            for i in bad: cands[soft[i][0]].add(soft[i][1])
            if rounds > 12 or (deadline and time.time() > deadline): raise Unsup('invariant inference does not converge')
    except Unsup as u:
        R.status = 'unsupported'; R.unsup = str(u); R.eng = None; R.retry = 'converge' in str(u)
        R.obs = []; R.failed = []; R.rounds = rounds; R.soft = 0
        if verbose: traceback.print_exc(limit=-4)
        return R
    R.rounds = rounds
    obs = [o for o in eng.obs if tags is None or set(o.tags) & set(tags)]
    first = {}; uniq = []
    for o in obs:
        kx = (id(o.hyps), o.goal.get_id())
        if kx not in first: first[kx] = len(uniq); uniq.append(o)
    ures = pmap(lambda i: prove(uniq[i], hard_ms, 2), len(uniq), workers)
    res = [ures[first[id(o.hyps), o.goal.get_id()]] for o in obs]
    # vacuity: the hypotheses of a postcondition must not be contradictory
    hs = {}
    for o in obs:
        if o.kind == 'post' and o.hyps is not None: hs.setdefault(id(o.hyps), o)
    hs = list(hs.values())[-6:]
    vac = pmap(lambda i: prove(Oblig(hs[i].hyps, z3.BoolVal(False), 'vacuity', (), 'vac', ''), 300, 1)[0], len(hs), workers)
    R.vacuous = bool(hs) and all(v is True for v in vac)
    R.vacchecks = len(hs)
    R.eng = eng
    R.obs = list(zip(obs, res))
    R.soft = len(eng.soft)
    R.failed = [(o, r) for o, r in R.obs if r is None or r[0] is not True]
    R.status = 'ok' if not R.failed and not R.vacuous else 'failed'
    return R
