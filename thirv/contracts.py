"""Contracts and proof jobs."""
import z3
from values import *
import theory as T
from engine import State, Oblig
S = z3.Select
j, k, i_ = z3.Ints('j k i')
def inr(i, n): return z3.And(i >= 0, i < n)

class Contracts:
    def __init__(self): self.by = {}
    def get(self, p): return self.by.get(p)
    def templates(self, eng): return templates
C = Contracts()
JOBS = []

# ------------------------------------------------------------------ loop-invariant templates
SAT = T.key_of_bits(0x4b800000)      # 2^24
def templates(l):
    out = []
    for c in l.comps:
        nm = c['lab'] + c['nm']
        if c['ty'] == 'f32':
            z = c['z']
            out += [('t:%s nn' % nm, T.nn(z)), ('t:%s nonneg' % nm, z3.And(T.nn(z), T.K(z) >= 0)), ('t:%s sat' % nm, z3.And(T.nn(z), T.K(z) <= SAT)),
                    ('t:%s nan|nonneg' % nm, z3.Or(T.isnan(z), T.K(z) >= 0)),
                    ('t:%s one' % nm, z3.Or(z == c['z0'], z3.And(T.nn(z), T.K(z) >= T.ONE)))]
            if l.D.pri is not None:
                K = l.D.k_of(l.comps[l.D.pri]['z'])
                out.append(('t:%s nan|pos' % nm, z3.Implies(K > 0, z3.Or(T.isnan(z), T.K(z) >= T.ONE))))
                out.append(('t:%s pos' % nm, z3.Implies(K > 0, z3.And(T.nn(z), T.K(z) >= T.ONE))))
    return out

# ------------------------------------------------------------------ views
class Lg:
    """View of a Logits value."""
    def __init__(s, eng, st, ref):
        v = eng.read(st, eng.chase(st, ref)) if isinstance(ref, Ref) else ref
        s.v = v
        s.sorted, s.soft = v.f['sorted'].z, v.f['has_softmax'].z
        vc = v.f['logits']
        if isinstance(vc, LV):
            if vc.items: vc = to_vc(vc)
            else: vc = Vc(z3.IntVal(0), None, [])
        s.n = vc.n
        if vc.tmpl is None: s.g, s.l, s.p, s.id = [fresh('none', z3.ArraySort(I, t)) for t in (I, F, F, I)]
        else: s.g, s.l, s.p, s.id = vc.arrs
def ssum(l, m, n):
    """Sum of exp(score - max), accumulated from +0 in list order."""
    a, i = z3.Const('cv_acc', F), z3.Int('cv_ix')
    return T.mkrec(T.fadd(a, T.fexp(T.fsub(S(l, i), m))), a, i)(fconst(0.0), n)
def psum(p, n):
    a, i = z3.Const('cv_acc', F), z3.Int('cv_ix')
    return T.mkrec(T.fadd(a, S(p, i)), a, i)(fconst(0.0), n)
def probf(l, i, n): return T.fdiv(T.fexp(T.fsub(S(l, i), S(l, z3.IntVal(0)))), ssum(l, S(l, z3.IntVal(0)), n))
def ordered(L): return T.FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < L.n), T.key(S(L.l, k)) <= T.key(S(L.l, j))), [(S(L.l, j), S(L.l, k))])
def nonan(L): return T.FA(j, z3.Implies(inr(j, L.n), T.nn(S(L.l, j))), [S(L.l, j)])
def normal(L):
    """The probabilities are those of the current scores, in [0, 1] and non-increasing."""
    return z3.And(T.FA(j, z3.Implies(inr(j, L.n), S(L.p, j) == probf(L.l, j, L.n)), [S(L.p, j)]), probfacts(L))
def probfacts(L):
    return z3.And(T.FA(j, z3.Implies(inr(j, L.n), z3.And(T.nn(S(L.p, j)), T.key(S(L.p, j)) >= 0, T.key(S(L.p, j)) <= T.ONE)), [S(L.p, j)]),
                  T.FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < L.n), T.key(S(L.p, k)) <= T.key(S(L.p, j))), [(S(L.p, j), S(L.p, k))]),
                  z3.Implies(L.n > 0, T.key(S(L.p, z3.IntVal(0))) > 0))
ARGMAX = z3.Int('argmax')
def markers(L): return [z3.Implies(L.sorted, ordered(L)), z3.Implies(L.soft, z3.And(L.sorted, normal(L)))]
def finmax(L): return z3.Implies(L.n > 0, z3.And(inr(ARGMAX, L.n), T.finite(S(L.l, ARGMAX))))
WANTMAX = T.want(ARGMAX)
def below(L): return T.FA(j, z3.Implies(inr(j, L.n), z3.And(T.nn(S(L.l, j)), T.key(S(L.l, j)) < T.KINF)), [S(L.l, j)])
def okpre(L):
    """Well-formed logits: no NaN, every score below +inf, one of them finite, markers truthful, ghost origin = position."""
    return [L.n <= 2**31 - 1, T.FA(j, z3.Implies(inr(j, L.n), S(L.g, j) == j), [S(L.g, j)]), below(L), finmax(L), WANTMAX] + markers(L)

# ------------------------------------------------------------------ contracts on functions of the crate
class Con:
    callable = True
def set_logits(eng, st, ref, n, arrs, sorted_, soft):
    r = eng.chase(st, ref)
    v = eng.read(st, r); vc = v.f['logits']
    eng.write(st, r, v.upd('logits', Vc(n, vc.tmpl, arrs)).upd('sorted', boolv(sorted_)).upd('has_softmax', boolv(soft)))
AI, AF = z3.ArraySort(I, I), z3.ArraySort(I, F)
_perm = {nm: z3.Function(nm, AF, I, B, AI) for nm in ('sortperm', 'sortinv', 'normperm', 'norminv')}
_papp = {'i': z3.Function('permuted_i', AI, AI, AI), 'f': z3.Function('permuted_f', AF, AI, AF)}
_nprob = z3.Function('normalised', AF, AF, I, AF)
def witness(L, kind):
    """The permutation a sort applies and the permuted arrays, as functions of what the sort reads."""
    p, q = _perm[kind + 'perm'](L.l, L.n, L.sorted), _perm[kind + 'inv'](L.l, L.n, L.sorted)
    arrs = [_papp['f' if a.sort() == AF else 'i'](a, p) for a in (L.g, L.l, L.p, L.id)]
    if kind == 'norm': arrs[2] = _nprob(arrs[2], arrs[1], L.n)
    return arrs, p, q
def permfacts(st, L, arrs, p, q, probs=True):
    """arrs is a permutation of L: witness arrays p (new -> old) and q (old -> new)."""
    for f in T.perm_facts([(a, b) for n, (a, b) in enumerate(zip(arrs, (L.g, L.l, L.p, L.id))) if probs or n != 2], p, q, L.n): st.assume(f)
def stable(st, L, arrs, p):
    st.assume(T.FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < L.n), z3.And(T.key(S(arrs[1], k)) <= T.key(S(arrs[1], j)),
              z3.Implies(T.key(S(arrs[1], k)) == T.key(S(arrs[1], j)), S(p, j) < S(p, k)))), [(S(arrs[1], j), S(arrs[1], k)), (S(p, j), S(p, k))]))
def anyhow_err(nm): return err(St('anyhow', {'e': Sc(fresh(nm, OPQ), 'opq:err')}))

class EnsureSorted(Con):
    """ok: no NaN.  Ensures a stable descending permutation, marked sorted.  any: same length, or an error that changes nothing."""
    def apply(self, eng, st, args, e):
        L = Lg(eng, st, args[0])
        if eng.beh == 'ok': eng.oblige(st, nonan(L), 'ensure_sorted: no NaN', 'pre', ALLTAGS, where=(e or {}).get('sp', ''))
        out = []
        for s, b in eng.split(st, L.sorted):
            if b: out.append((s, ok(args[0]))); continue
            arrs, p, q = witness(L, 'sort')
            if eng.beh != 'ok':
                f2 = s.fork(); out.append((f2, anyhow_err('sort_error')))
                permfacts(s, L, arrs, p, q)
                set_logits(eng, s, args[0], L.n, arrs, True, L.soft)
                out.append((s, ok(args[0]))); continue
            permfacts(s, L, arrs, p, q)
            stable(s, L, arrs, p)
            set_logits(eng, s, args[0], L.n, arrs, True, L.soft)
            out.append((s, ok(args[0])))
        return out
class EnsureSoftmax(Con):
    """ok: well-formed scores.  Ensures the sorted order and the probabilities of the definition.  any: probabilities NaN or in [0, 1]."""
    def apply(self, eng, st, args, e):
        L = Lg(eng, st, args[0])
        wh = (e or {}).get('sp', '')
        if eng.beh == 'ok':
            eng.oblige(st, below(L), 'ensure_softmax: scores are numbers below +inf', 'pre', ALLTAGS, where=wh)
            eng.oblige(st, z3.Implies(L.n > 0, z3.Exists([j], z3.And(inr(j, L.n), T.finite(S(L.l, j))), patterns=[])) if False else finmax(L), 'ensure_softmax: a finite score', 'pre', ALLTAGS, where=wh)
        out = []
        if eng.beh != 'ok':
            f2 = st.fork().assume(z3.Not(L.soft)).assume(L.n > 0)
            # a failing normalisation leaves the logits as they were
            out.append((f2, anyhow_err('softmax_error')))
            arrs, p, q = witness(L, 'norm')
            permfacts(st, L, arrs, p, q, False)
            st.assume(T.FA(j, z3.Implies(inr(j, L.n), z3.Or(T.isnan(S(arrs[2], j)), z3.And(T.key(S(arrs[2], j)) >= 0, T.key(S(arrs[2], j)) <= T.ONE))), [S(arrs[2], j)]))
            set_logits(eng, st, args[0], L.n, arrs, True, True)
            out.append((st, ok(args[0])))
            return out
        for s, b in eng.split(st, L.soft):
            if b:
                set_logits(eng, s, args[0], L.n, [L.g, L.l, L.p, L.id], True, True)
                out.append((s, ok(args[0]))); continue
            arrs, p, q = witness(L, 'norm')
            permfacts(s, L, arrs, p, q, False)
            s.assume(z3.Implies(L.sorted, z3.And(T.FA(j, z3.Implies(inr(j, L.n), S(p, j) == j), [S(p, j)]))))
            stable(s, L, arrs, p)
            set_logits(eng, s, args[0], L.n, arrs, True, True)
            N = Lg(eng, s, args[0])
            s.assume(normal(N))
            s.assume(z3.Implies(N.n > 0, T.finite(S(N.l, z3.IntVal(0)))))
            out.append((s, ok(args[0])))
        return out
ALLTAGS = tuple('C%02d' % i for i in range(1, 24))
C.by['types::Logits::ensure_sorted'] = EnsureSorted()
C.by['types::Logits::ensure_softmax'] = EnsureSoftmax()
CON_JOBS = {'types::Logits::ensure_sorted': 'ensure_sorted', 'types::Logits::ensure_softmax': 'ensure_softmax'}

# ------------------------------------------------------------------ jobs
def job(name, root, beh='ok', props=()):
    def d(f):
        JOBS.append(dict(name=name, root=root, beh=beh, props=tuple(props), run=f))
        return f
    return d
def ob(eng, st, goal, name, tags, by=None):
    """by: lemmas, proved here as obligations of their own; the goal then has to follow from them alone."""
    if by is None: eng.oblige(st.fork(), goal, name, 'post', tags); return
    for n, f in enumerate(by): eng.oblige(st.fork(), f, '%s [step %d]' % (name, n + 1), 'post', tags)
    s = State({}, None)
    for f in by: s.assume(f)
    eng.oblige(s, goal, name, 'post', tags)
def fn_args(eng, st, path):
    fn = eng.P.fns[path]
    return fn, [eng.mk(st, p['ty'], 'p%d' % n) for n, p in enumerate(fn['body']['params'])]
def ident_ghost(L): return T.FA(j, z3.Implies(inr(j, L.n), S(L.g, j) == j), [S(L.g, j)])
def isok(v): return isinstance(v, En) and v.name == 'Result' and v.var == 'Ok'
def subcoll(eng, s, pre, q, tags, what, full=False, perm=False):
    """q's entries are entries of pre (by ghost origin), none twice; with full: all of them."""
    ob(eng, s, T.FA(j, z3.Implies(inr(j, q.n), inr(S(q.g, j), pre.n))), what + ': every token was there before', tags)
    ob(eng, s, T.FA(j, z3.Implies(inr(j, q.n), S(q.id, j) == S(pre.id, S(q.g, j)))), what + ': ids are unchanged', tags)
    ob(eng, s, T.FA(j, z3.Implies(inr(j, q.n), S(q.l, j) == S(pre.l, S(q.g, j)))), what + ': scores are unchanged', tags)
    ob(eng, s, T.FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < q.n), S(q.g, j) != S(q.g, k))), what + ': no token is repeated', tags)
    if full:
        ob(eng, s, q.n == pre.n, what + ': no token is lost or added', tags)
def surj(pre, q): return T.FA(k, z3.Implies(z3.And(inr(k, pre.n), T.want(k)), z3.Exists([j], z3.And(inr(j, q.n), S(q.g, j) == k, S(q.l, j) == S(pre.l, k)))))

@job('ensure_sorted', 'types::Logits::ensure_sorted', 'ok', ['C03', 'C04', 'C05'])
def _(eng, st):
    fn, args = fn_args(eng, st, 'types::Logits::ensure_sorted')
    pre = Lg(eng, st, args[0])
    for f in (ident_ghost(pre), nonan(pre), z3.Implies(pre.sorted, ordered(pre))): st.assume(f)
    for s, v in eng.inline(st, fn, args, {}):
        tg = ALLTAGS
        ob(eng, s, z3.BoolVal(isok(v)), 'ensure_sorted succeeds without NaN', tg)
        q = Lg(eng, s, args[0])
        ob(eng, s, q.sorted, 'ensure_sorted marks the logits sorted', tg)
        ob(eng, s, q.soft == pre.soft, 'ensure_sorted keeps the normalised marker', tg)
        ob(eng, s, ordered(q), 'ensure_sorted orders scores non-increasing', tg)
        subcoll(eng, s, pre, q, tg, 'ensure_sorted', full=True)
        ob(eng, s, T.FA(j, z3.Implies(inr(j, q.n), S(q.p, j) == S(pre.p, S(q.g, j)))), 'ensure_sorted keeps probabilities with their tokens', tg)
        ob(eng, s, surj(pre, q), 'ensure_sorted keeps every token', tg)
        ob(eng, s, T.FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < q.n, z3.Not(pre.sorted), T.key(S(q.l, j)) == T.key(S(q.l, k))), S(q.g, j) < S(q.g, k))), 'ensure_sorted keeps the order of equal scores', tg)
        ob(eng, s, T.FA(j, z3.Implies(z3.And(inr(j, q.n), pre.sorted), z3.And(S(q.g, j) == j, S(q.l, j) == S(pre.l, j), S(q.p, j) == S(pre.p, j), S(q.id, j) == S(pre.id, j)))), 'ensure_sorted leaves sorted logits as they are', tg)

@job('ensure_sorted/any', 'types::Logits::ensure_sorted', 'any', ['C22'])
def _(eng, st):
    fn, args = fn_args(eng, st, 'types::Logits::ensure_sorted')
    pre = Lg(eng, st, args[0])
    st.assume(ident_ghost(pre))
    for s, v in eng.inline(st, fn, args, {}):
        q = Lg(eng, s, args[0])
        tg = ALLTAGS
        if not isok(v):
            ob(eng, s, z3.And(q.n == pre.n, q.l == pre.l, q.p == pre.p, q.id == pre.id, q.sorted == pre.sorted, q.soft == pre.soft), 'a failing ensure_sorted changes nothing', tg)
            continue
        subcoll(eng, s, pre, q, tg, 'ensure_sorted', full=True)
        ob(eng, s, T.FA(j, z3.Implies(inr(j, q.n), S(q.p, j) == S(pre.p, S(q.g, j)))), 'ensure_sorted keeps probabilities with their tokens', tg)
        ob(eng, s, surj(pre, q), 'ensure_sorted keeps every token', tg)
        ob(eng, s, z3.And(q.sorted, q.soft == pre.soft), 'ensure_sorted sets its marker', tg)

@job('ensure_softmax', 'types::Logits::ensure_softmax', 'ok', ['C03', 'C04', 'C05'])
def _(eng, st):
    fn, args = fn_args(eng, st, 'types::Logits::ensure_softmax')
    pre = Lg(eng, st, args[0])
    for f in okpre(pre): st.assume(f)
    for s, v in eng.inline(st, fn, args, {}):
        tg = ALLTAGS
        q = Lg(eng, s, args[0])
        ob(eng, s, z3.BoolVal(isok(v)), 'ensure_softmax succeeds on well-formed logits', tg)
        ob(eng, s, z3.And(q.sorted, q.soft), 'ensure_softmax sets both markers', tg)
        ob(eng, s, ordered(q), 'ensure_softmax orders scores non-increasing', tg)
        ob(eng, s, T.FA(j, z3.Implies(inr(j, q.n), S(q.p, j) == probf(q.l, j, q.n))), 'ensure_softmax: probability is exp(score - max) / sum', tg)
        pf = probfacts(q)
        sm = ssum(q.l, S(q.l, z3.IntVal(0)), q.n)
        lem = [T.FA(j, z3.Implies(inr(j, q.n), S(q.p, j) == probf(q.l, j, q.n)), [S(q.p, j)]), below(q), ordered(q), z3.Implies(q.n > 0, T.finite(S(q.l, z3.IntVal(0)))),
               z3.Implies(q.n > 0, z3.And(T.nn(sm), T.K(sm) >= T.ONE, T.K(sm) <= SAT))]
        lem = [z3.Implies(pre.soft, f) for f in pf.children()] + [z3.Implies(z3.Not(pre.soft), f) for f in lem]
        ob(eng, s, pf.arg(0), 'ensure_softmax: probabilities lie in [0, 1]', tg, by=lem)
        ob(eng, s, pf.arg(1), 'ensure_softmax: probabilities never increase', tg, by=lem)
        ob(eng, s, pf.arg(2), 'ensure_softmax: the first probability is positive', tg, by=lem)
        ob(eng, s, z3.Implies(q.n > 0, T.finite(S(q.l, z3.IntVal(0)))), 'ensure_softmax: the highest score is finite', tg)
        subcoll(eng, s, pre, q, tg, 'ensure_softmax', full=True)
        ob(eng, s, surj(pre, q), 'ensure_softmax keeps every token', tg)
        ob(eng, s, T.FA([j, k], z3.Implies(z3.And(j >= 0, j < k, k < q.n, z3.Not(pre.sorted), T.key(S(q.l, j)) == T.key(S(q.l, k))), S(q.g, j) < S(q.g, k))), 'ensure_softmax keeps the order of equal scores', tg)
        ob(eng, s, T.FA(j, z3.Implies(z3.And(inr(j, q.n), pre.sorted), z3.And(S(q.g, j) == j, S(q.l, j) == S(pre.l, j), S(q.id, j) == S(pre.id, j)))), 'ensure_softmax leaves sorted logits in place', tg)
        ob(eng, s, z3.Implies(pre.soft, q.p == pre.p), 'ensure_softmax leaves normalised logits as they are', tg)

@job('ensure_softmax/any', 'types::Logits::ensure_softmax', 'any', ['C22'])
def _(eng, st):
    fn, args = fn_args(eng, st, 'types::Logits::ensure_softmax')
    pre = Lg(eng, st, args[0])
    st.assume(ident_ghost(pre))
    rangep = lambda L: T.FA(j, z3.Implies(inr(j, L.n), z3.Or(T.isnan(S(L.p, j)), z3.And(T.key(S(L.p, j)) >= 0, T.key(S(L.p, j)) <= T.ONE))), [S(L.p, j)])
    st.assume(z3.Implies(pre.soft, rangep(pre)))
    tg = ALLTAGS
    for s, v in eng.inline(st, fn, args, {}):
        q = Lg(eng, s, args[0])
        if not isok(v):
            ob(eng, s, z3.And(q.n == pre.n, q.l == pre.l, q.p == pre.p, q.id == pre.id, q.sorted == pre.sorted, q.soft == pre.soft, z3.Not(pre.soft), pre.n > 0), 'a failing ensure_softmax changes nothing', tg)
            continue
        subcoll(eng, s, pre, q, tg, 'ensure_softmax', full=True)
        ob(eng, s, surj(pre, q), 'ensure_softmax keeps every token', tg)
        ob(eng, s, z3.And(q.sorted, q.soft), 'ensure_softmax sets both markers', tg)
        sm = ssum(q.l, S(q.l, z3.IntVal(0)), q.n)
        e = T.fexp(T.fsub(S(q.l, j), S(q.l, z3.IntVal(0))))
        lem = [z3.Implies(pre.soft, rangep(q))] + [z3.Implies(z3.And(z3.Not(pre.soft), q.n > 0), f) for f in (
            T.FA(j, z3.Implies(inr(j, q.n), S(q.p, j) == probf(q.l, j, q.n)), [S(q.p, j)]),
            T.FA(j, z3.Implies(inr(j, q.n), z3.Or(T.isnan(sm), z3.And(T.nn(e), T.K(e) >= 0, T.K(e) <= T.K(sm)))), [S(q.l, j)]))]
        ob(eng, s, rangep(q), 'ensure_softmax: every probability is NaN or in [0, 1]', tg, by=lem)

SELF = '<samplers::%s as types::Sampler>::sample'
def sampler_call(eng, st, root, beh):
    fn, args = fn_args(eng, st, root)
    pre = Lg(eng, st, args[2])
    if beh == 'ok':
        for f in okpre(pre): st.assume(f)
    else: st.assume(ident_ghost(pre))
    selfv = eng.read(st, args[0])
    outs = eng.inline(st, fn, args, {})
    return args, pre, selfv, outs

@job('temperature', SELF % 'temperature::SampleTemperature', 'ok', ['C03', 'C05', 'C16'])
def _(eng, st):
    args, pre, s0, outs = sampler_call(eng, st, SELF % 'temperature::SampleTemperature', 'ok')
    t = s0.f['temperature'].z
    zero = T.feq(t, fconst(0.0))
    for s, v in outs:
        ob(eng, s, z3.BoolVal(isok(v)), 'temperature returns the logits', ['C16'])
        q = Lg(eng, s, args[2])
        ob(eng, s, q.n == pre.n, 'temperature keeps the number of tokens', ['C16', 'C05'])
        ob(eng, s, T.FA(j, z3.Implies(inr(j, pre.n), S(q.id, j) == S(pre.id, j))), 'temperature keeps ids in place', ['C16', 'C05'])
        ob(eng, s, T.FA(j, z3.Implies(z3.And(inr(j, pre.n), z3.Not(zero)), S(q.l, j) == T.fdiv(S(pre.l, j), t))), 'temperature divides each score', ['C16'])
        ob(eng, s, z3.Implies(zero, z3.And(q.sorted == pre.sorted, q.soft == pre.soft)), 'temperature 0 keeps the markers', ['C16'])
        ob(eng, s, T.FA(j, z3.Implies(z3.And(inr(j, pre.n), zero), z3.And(S(q.l, j) == S(pre.l, j), S(q.p, j) == S(pre.p, j)))), 'temperature 0 changes nothing', ['C16'])
        ob(eng, s, z3.Implies(z3.And(q.sorted, T.finite(t)), ordered(q)), 'temperature: sorted marker is truthful', ['C03'])
        ob(eng, s, z3.Implies(q.soft, z3.And(q.sorted, zero)), 'temperature: normalised marker is truthful', ['C03'])

# ------------------------------------------------------------------ filters
def norm(eng, st, pre, sort_only=False):
    """The list a normalising (or sorting) call on pre gives: [(state, view)]."""
    r = eng.tmp(st, pre.v, 'spec')
    eng.mute += 1
    try: outs = (C.by['types::Logits::ensure_sorted'] if sort_only else C.by['types::Logits::ensure_softmax']).apply(eng, st, [r], None)
    finally: eng.mute -= 1
    return [(s, Lg(eng, s, r)) for s, v in outs if isok(v)]
def unchanged(q, pre): return z3.And(q.n == pre.n, q.sorted == pre.sorted, q.soft == pre.soft, samelist(q, pre))
def samelist(q, N): return T.FA(j, z3.Implies(inr(j, q.n), z3.And(S(q.g, j) == S(N.g, j), S(q.l, j) == S(N.l, j), S(q.p, j) == S(N.p, j), S(q.id, j) == S(N.id, j))))
def is_prefix(eng, s, N, q, what, tags):
    ob(eng, s, z3.And(q.n <= N.n, q.n >= 0), what + ': no longer than before', tags)
    ob(eng, s, samelist(q, N), what + ': a prefix of the tokens in order of probability', tags)
    ob(eng, s, z3.And(q.sorted, z3.Implies(q.soft, q.n == N.n)), what + ': the markers of a prefix', ['C03'] + tags)
def truth(eng, s, q, what, tags=('C03',)):
    ob(eng, s, z3.Implies(q.sorted, ordered(q)), what + ': the sorted marker is truthful', tags)
    ob(eng, s, z3.Implies(q.soft, q.sorted), what + ': normalised implies sorted', tags)
    nf = normal(q)
    ob(eng, s, z3.Implies(q.soft, nf.arg(0)), what + ': the normalised marker is truthful', tags)

def sampler(name, path, early, cut, tag, sort_only=False):
    root = SELF % path
    @job(name, root, 'ok', ['C03', 'C05', tag])
    def _(eng, st):
        args, pre, s0, outs = sampler_call(eng, st, root, 'ok')
        f = {k_: v_.z for k_, v_ in s0.f.items() if isinstance(v_, Sc)}
        E = early(f, pre)
        for s, v in outs:
            ob(eng, s, z3.BoolVal(isok(v)), name + ' succeeds on well-formed logits', [tag])
            if not isok(v): continue
            q = Lg(eng, s, args[2])
            truth(eng, s, q, name)
            for s1, b in eng.split(s, E):
                if b: ob(eng, s1, unchanged(q, pre), name + ' disabled: the logits are unchanged', [tag, 'C05']); continue
                for s2, N in norm(eng, s1, pre, sort_only):
                    is_prefix(eng, s2, N, q, name, [tag])
                    for g, w in cut(f, N, q.n): ob(eng, s2, g, '%s: %s' % (name, w), [tag])
    @job(name + '/any', root, 'any', ['C05', 'C06', 'C22'])
    def _(eng, st):
        args, pre, s0, outs = sampler_call(eng, st, root, 'any')
        for s, v in outs:
            q = Lg(eng, s, args[2])
            subcoll(eng, s, pre, q, ['C05'], name)
            keep = s0.f['min_keep'].z if 'min_keep' in s0.f else z3.IntVal(1)
            ob(eng, s, z3.Implies(z3.And(pre.n > 0, keep >= 1), q.n > 0), name + ' never empties the list', ['C06'])
            ob(eng, s, z3.And(q.n <= pre.n, z3.Or(q.n >= keep, q.n == pre.n)), name + ' keeps min_keep tokens', ['C06'])
F0, F1 = fconst(0.0), fconst(1.0)
NEVER = lambda f, pre: z3.BoolVal(False)
imax = lambda a, b: z3.If(a >= b, a, b)
imin = lambda a, b: z3.If(a <= b, a, b)
def first(n, m, cond, hit):
    """m is n or hits, and no smaller i in range hits."""
    i = z3.Int('ci')
    return T.FAp(i, z3.Implies(z3.And(cond(i), i < m), z3.Not(hit(i))))
sampler('top_k', 'top_k::SampleTopK', NEVER, lambda f, N, m: [(m == imin(imax(f['k'], f['min_keep']), N.n), 'the number of tokens kept is max(k, min_keep)')], 'C07', sort_only=True)
def cut_top_p(f, N, m):
    hit = lambda i: z3.And(T.fle(f['p'], psum(N.p, i)), i >= f['min_keep'])
    return [(z3.Or(m == N.n, z3.And(m >= 1, hit(m))), 'the kept mass reaches p'), (first(N.n, m, lambda i: i >= 1, hit), 'no shorter prefix reaches p')]
sampler('top_p', 'top_p::SampleTopP', NEVER, cut_top_p, 'C07')
def cut_below(thr):
    def g(f, N, m):
        lo = imax(z3.IntVal(1), f['min_keep'])
        hit = lambda i: T.flt(S(N.p, i), thr(f, N))
        return [(z3.Or(m == N.n, z3.And(m >= lo, m < N.n, hit(m))), 'cuts at a token below the threshold'), (first(N.n, m, lambda i: i >= lo, hit), 'no earlier token is below the threshold')]
    return g
sampler('min_p', 'min_p::SampleMinP', lambda f, pre: z3.Or(T.feq(f['p'], F0), pre.n == 0), cut_below(lambda f, N: T.fmul(S(N.p, z3.IntVal(0)), f['p'])), 'C08')
sampler('top_a', 'top_a::SampleTopA', lambda f, pre: z3.Or(T.feq(f['a1'], F0), T.feq(f['a2'], F0), pre.n == 0),
        cut_below(lambda f, N: T.fmul(T.BIF['powf'](S(N.p, z3.IntVal(0)), f['a2']), f['a1'])), 'C08')
def fsum(step, n):
    """Running f32 sum from +0 of step(i), i < n."""
    a, i = z3.Const('cv_acc', F), z3.Int('cv_ix')
    return T.mkrec(T.fadd(a, step(i)), a, i)(F0, n)
def cut_tail_free(f, N, m):
    d = lambda i: T.fsub(S(N.p, i), S(N.p, i + 1))
    sd = lambda i: T.fabs(T.fsub(d(i), d(i + 1)))
    tot = fsum(sd, N.n - 2)
    cum = lambda i: fsum(lambda x: T.fdiv(sd(x), tot), i)
    hit = lambda i: z3.And(T.flt(f['z'], cum(i + 1)), i >= f['min_keep'])
    return [(z3.Or(m == N.n, z3.And(m >= 0, m < N.n - 2, hit(m))), 'cuts where the mass exceeds z'), (first(N.n, m, lambda i: z3.And(i >= 0, i < N.n - 2), hit), 'the mass exceeds z nowhere before')]
sampler('tail_free', 'tail_free::SampleTailFree', lambda f, pre: z3.Or(T.fle(F1, f['z']), pre.n <= 2), cut_tail_free, 'C09')
