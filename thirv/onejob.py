"""onejob.py THIR.json JOB TAGS|ALL WORKERS SECONDS OUT.json: prove the obligations of one job."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import resource
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
sys.setrecursionlimit(20000)
import run, contracts
from engine import Prog
from values import Unsup
def main():
    thir, name, tags, workers, secs, out = sys.argv[1:7]
    prog = Prog(json.load(open(thir)))
    job = [j for j in contracts.JOBS if j['name'] == name][0]
    try:
        R = run.run_job(job, prog, contracts.C, int(workers), None if tags == 'ALL' else tags.split(','), deadline=time.time() + float(secs))
    except (KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError, RecursionError, MemoryError) as ex:
        import traceback
        R = run.Result(); R.status = 'unsupported'; R.unsup = 'the generator has no rule: %r\n%s' % (ex, traceback.format_exc(limit=-3)); R.obs = []; R.failed = []; R.eng = None; R.rounds = 0; R.secs = 0; R.softsecs = 0; R.soft = 0
    d = dict(job=name, root=job['root'], beh=job['beh'], status=R.status, unsup=R.unsup, rounds=R.rounds, secs=R.secs, soft=R.soft, softsecs=R.softsecs)
    d['obs'] = [dict(name=o.name, where=o.where, kind=o.kind, tags=o.tags, ok=bool(r and r[0] is True), secs=(r[1] if r and r[0] in (True, False) else 0.0), why=(None if r and r[0] is True else repr(r[3] if r and r[0] is False else r))) for o, r in R.obs]
    d['axioms'] = sorted({a for o, r in R.obs if r and r[0] is True for a in r[2]})
    if R.eng:
        d['fns'] = sorted(R.eng.fns_used | {job['root']}); d['models'] = sorted(R.eng.used_models); d['loops'] = R.eng.loops_seen
        d['contracts'] = sorted(R.eng.cons_used); d['vacuous'] = R.vacuous; d['vacchecks'] = R.vacchecks
        # the failing queries, for the report
        d['failed'] = []
        for o, r in R.failed[:3]:
            import z3, theory as T
            z3.set_option(max_depth=20, max_lines=60, max_width=140)
            d['failed'].append(dict(name=o.name, where=o.where, goal=str(o.goal)[:3000], verdict=repr(r)[:500]))
    json.dump(d, open(out + '.tmp', 'w'), indent=0, default=list)
    os.rename(out + '.tmp', out)
main()
