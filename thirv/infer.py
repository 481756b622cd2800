"""Loop summaries: closed forms, processed-range facts and search results derived from one symbolic iteration.
Everything derived here is only a candidate; the engine checks it on entry and on every back edge (or at the exit)."""
import re
import z3
from values import *
import theory as T

class Derived: pass

def unfold_conjs(e): return T.conjs(e)

def leafmap(v): return {nm: z for nm, z, _ in lwalk(v)}

class Deriver:
    def __init__(self, eng, base, head, comps, rs, n0):
        self.eng, self.base, self.head, self.comps, self.n0 = eng, base, head, comps, n0
        self.f = [c[4] for c in comps]
        self.z0 = [leafmap(base.store[c[0]])[c[2]] for c in comps]
        self.idx = {f.get_id(): n for n, f in enumerate(self.f)}
        self.nexts, self.exits = [], []
        for s, kind, v in rs:
            cs = self.conds(s)
            if kind == 'next':
                vals = []
                for (c, lab, nm, ty, _) in comps:
                    w = s.store[c]
                    if not same(w, head.store[c]): w = coerce(w, head.store[c])
                    vals.append(z3.simplify(leafmap(w)[nm]))
                self.nexts.append((cs, vals))
            else: self.exits.append((cs, v))
        self.run()
    def conds(self, s):
        out = []; self.quant = False
        for c in self.eng.extra(s.pc, self.head.pc) or []:
            if c.get_id() in self.eng.noise: continue
            if T.has_quant(c): continue
            out.append(c)
        return out
    # -------------------------------------------------------- closed forms
    def run(self):
        self.cnt = {}          # comp number -> step
        self.closed = {}       # comp number -> function(k) -> term
        self.pri = None
        self.K = None
        if not self.nexts: return
        for n, (c, lab, nm, ty, f) in enumerate(self.comps):
            if f.sort() != I: continue
            ds = {str(z3.simplify(v[n] - f)) for _, v in self.nexts}
            if len(ds) == 1:
                d = z3.simplify(self.nexts[0][1][n] - f)
                if z3.is_int_value(d) and d.as_long() != 0:
                    self.cnt[n] = d.as_long()
        for want in (1, -1):
            for n, d in self.cnt.items():
                if d == want and self.pri is None: self.pri = n
        if self.pri is None: return
        p = self.pri
        for n, d in self.cnt.items():
            self.closed[n] = (lambda k, n=n, d=d: z3.simplify(self.z0[n] + d * k))
        # arrays: position of the store
        self.pos = {}
        for n, (c, lab, nm, ty, f) in enumerate(self.comps):
            if not z3.is_array(f): continue
            ps = []
            okk = True
            for _, v in self.nexts:
                x = v[n]; depth = 0
                while z3.is_store(x):
                    ps.append(x.arg(1)); x = x.arg(0); depth += 1
                if not x.eq(f): okk = False
            if not okk or not ps: continue
            if all(q.eq(ps[0]) for q in ps[1:]):
                cur = self.atk(ps[0], None, counters_only=True)
                if cur is not None: self.pos[n] = ps[0]
        # scalar recurrences
        for _ in range(3):
            for n, (c, lab, nm, ty, f) in enumerate(self.comps):
                if n in self.closed or z3.is_array(f): continue
                r = self.recurrence(n)
                if r is not None: self.closed[n] = r
    def k_of(self, leaf):
        p = self.pri
        return z3.simplify((leaf - self.z0[p]) * self.cnt[p])
    def resolve(self, e):
        """Replace reads of modified arrays at the current or a later position by reads of the entry arrays."""
        subs = []; bad = [False]; seen = set()
        def go(t):
            if t.get_id() in seen: return
            seen.add(t.get_id())
            if z3.is_quantifier(t): bad[0] = True; return
            if z3.is_select(t):
                a, i = t.arg(0), t.arg(1)
                n = self.idx.get(a.get_id())
                if n is not None:
                    if n in self.pos:
                        d = z3.simplify(i - self.pos[n])
                        m = self.cnt[self.pri]
                        step = z3.simplify(z3.substitute(self.pos[n], *[(self.f[q], self.f[q] + dd) for q, dd in self.cnt.items()]) - self.pos[n])
                        if z3.is_int_value(d) and z3.is_int_value(step) and d.as_long() * step.as_long() >= 0:
                            go(i)
                            subs.append((t, z3.Select(self.z0[n], i))); return
                    bad[0] = True; return
            for c in t.children(): go(c)
        go(e)
        if bad[0]: return None
        return z3.substitute(e, *subs) if subs else e
    def atk(self, e, k, counters_only=False, keep=None):
        """e (over head symbols) as a function of the iteration number k; None when it has no closed form."""
        e = self.resolve(e)
        if e is None: return None
        kk = z3.Int('cv_k')
        subs = []
        for n, f in enumerate(self.f):
            if keep is not None and n == keep: continue
            if n in self.closed and not (counters_only and n not in self.cnt): subs.append((f, self.closed[n](kk)))
        e = z3.substitute(e, *subs) if subs else e
        nms = consts_of(e)
        for n, f in enumerate(self.f):
            if keep is not None and n == keep: continue
            if f.decl().name() in nms: return None
        for nm in nms:
            m = re.match(r'.*!(\d+)$', nm)
            if m and int(m.group(1)) > self.n0 and not (keep is not None and nm == self.f[keep].decl().name()): return None
        if k is None: return e
        return z3.simplify(z3.substitute(e, (kk, k)))
    def usable(self, cs, keep=None):
        """Conjunction of the usable conditions as a function of k, and whether none was lost."""
        out = []; full = True
        for c in cs:
            for d in unfold_conjs(c):
                r = self.atk(d, None, keep=keep)
                if r is None: full = False
                else: out.append(r)
        return (z3.And(*out) if len(out) != 1 else out[0]) if out else z3.BoolVal(True), full
    def recurrence(self, n):
        f = self.f[n]
        vs = [v[n] for _, v in self.nexts]
        if all(v.eq(vs[0]) for v in vs): e = self.atk(vs[0], None, keep=n)
        else:
            e = None
            for (cs, v) in reversed(self.nexts):
                t = self.atk(v[n], None, keep=n)
                if t is None: return None
                if e is None: e = t; continue
                c, full = self.usable(cs, keep=n)
                if not full: return None
                e = z3.If(c, t, e)
        if e is None: return None
        kk = z3.Int('cv_k')
        try: g = T.mkrec(e, f, kk)
        except Unsup: return None
        return lambda k: g(self.z0[n], k)
    # -------------------------------------------------------- candidates
    def cands(self, zs):
        """[(key, formula)] over current leaf values zs."""
        if self.pri is None: return []
        out = []
        p = self.pri
        K = self.k_of(zs[p])
        if p in self.cnt: out.append(('d:k>=0', K >= 0))
        for n, g in self.closed.items():
            if n == p: continue
            c = self.comps[n]
            out.append(('d:closed:%s%s' % (c[1], c[2]), zs[n] == g(K)))
        j = z3.Int('dj')
        # every iteration so far took a continuing path
        R = self.ran()
        if R is not None:
            d = self.cnt[p]
            kk = z3.Int('cv_k')
            kj = z3.simplify((j - self.z0[p]) * d)
            cs = T.conjs(R[2]); rest = []
            for n, c in enumerate(cs):
                b = T.bound_of(c, kk)
                if b is not None: out.append(('d:ran:%d' % n, z3.Or(K <= b, K <= 0)))
                else: rest.append(c)
            if rest:
                c = z3.simplify(z3.substitute(z3.And(*rest) if len(rest) > 1 else rest[0], (kk, kj)))
                out.append(('d:ran', T.FAp(j, z3.Implies(z3.And(kj >= 0, kj < K), c))))
        # arrays
        self.content = {}
        for n, pos in self.pos.items():
            c = self.comps[n]
            nm = c[1] + c[2]
            A, A0 = zs[n], self.z0[n]
            poscl = self.atk(pos, None)          # position as a function of cv_k
            kk = z3.Int('cv_k')
            off = z3.simplify(z3.substitute(poscl, (kk, z3.IntVal(0))))
            st = z3.simplify(z3.substitute(poscl, (kk, z3.IntVal(1))) - off)
            if not z3.is_int_value(st) or abs(st.as_long()) != 1: continue
            kj = z3.simplify((j - off) * st.as_long())
            inside = z3.And(kj >= 0, kj < K)
            out.append(('d:frame:' + nm, T.FAp(j, z3.Implies(z3.Not(inside), z3.Select(A, j) == z3.Select(A0, j)), [z3.Select(A, j)])))
            e = None; good = True
            for (cs, v) in reversed(self.nexts):
                t = self.atk(z3.simplify(z3.Select(v[n], pos)) if z3.is_store(v[n]) else z3.Select(self.f[n], pos), None)
                if t is None: good = False; break
                if e is None: e = t; continue
                if t.eq(e): continue
                cc, full = self.usable(cs)
                if not full: good = False; break
                e = z3.If(cc, t, e)
            if good:
                t = z3.simplify(z3.substitute(e, (kk, kj)))
                if z3.is_int_value(off) and off.as_long() == 0 and st.as_long() == 1: self.content[n] = ('d:done:' + nm, t, j)
                pats = [z3.Select(A, j)] + ([z3.Select(A0, j)] if not T.has_ite(A0) else [])
                pats = [q for q in pats if not T.has_ite(q)]
                out.append(('d:done:' + nm, T.FAp(j, z3.Implies(inside, z3.Select(A, j) == t), pats)))
        # sums: not below any processed addend, once it is a number
        for n, c in enumerate(self.comps):
            if c[4].sort() != F: continue
            ts = []
            for _, v in self.nexts:
                t = v[n]
                if z3.is_app(t) and t.decl().name() == 'fadd':
                    t = t.arg(1) if t.arg(0).eq(c[4]) else t.arg(0) if t.arg(1).eq(c[4]) else None
                    if t is not None and not any(t.eq(u) for u in ts): ts.append(t)
                else: ts = []; break
            if len(ts) != 1: continue
            t = self.atk(ts[0], None)
            if t is None: continue
            kk = z3.Int('cv_k')
            kj = z3.simplify((j - self.z0[p]) * self.cnt[p])
            t = z3.simplify(z3.substitute(t, (kk, kj)))
            out.append(('d:upper:%s%s' % (c[1], c[2]), T.FAp(j, z3.Implies(z3.And(kj >= 0, kj < K), z3.Or(T.isnan(zs[n]), z3.And(T.nn(t), T.K(t) >= 0, T.K(t) <= T.K(zs[n])))))))
        # scalars changed on some paths only: unchanged value means no such path was taken
        for n, c in enumerate(self.comps):
            if z3.is_array(c[4]) or n in self.cnt: continue
            if not any(v[n].eq(c[4]) for _, v in self.nexts) and len(self.nexts) > 1: continue
            idp = []
            for cs, v in self.nexts:
                if v[n].eq(c[4]):
                    cc, full = self.usable(cs)
                    idp.append(cc)
            nonid = [v for _, v in self.nexts if not v[n].eq(c[4])]
            if not idp and len(self.nexts) == 1 and z3.is_app(self.nexts[0][1][n]):
                x = self.nexts[0][1][n]
                if x.decl().kind() == z3.Z3_OP_ITE:
                    cc = self.atk(x.arg(0), None)
                    if cc is not None:
                        if x.arg(2).eq(c[4]): idp.append(z3.Not(cc))
                        elif x.arg(1).eq(c[4]): idp.append(cc)
                if not idp: 
                    # acc + If(c, 1, 0) after merging
                    d = z3.simplify(x - c[4]) if c[4].sort() == I else None
                    if d is not None and d.decl().kind() == z3.Z3_OP_ITE:
                        cc = self.atk(d.arg(0), None)
                        if cc is not None:
                            if z3.is_int_value(d.arg(2)) and d.arg(2).as_long() == 0: idp.append(z3.Not(cc))
                            elif z3.is_int_value(d.arg(1)) and d.arg(1).as_long() == 0: idp.append(cc)
            if not idp: continue
            kk = z3.Int('cv_k')
            d = self.cnt[p]
            kj = z3.simplify((j - self.z0[p]) * d)
            none = z3.simplify(z3.substitute(z3.Or(*idp), (kk, kj)))
            out.append(('d:same:%s%s' % (c[1], c[2]), z3.Implies(zs[n] == self.z0[n], T.FAp(j, z3.Implies(z3.And(kj >= 0, kj < K), none)))))
        return out
    def tabulate(self, n, arr, length, K):
        """arr, the content of a vector of this length after K full iterations, as a tabulated array (None: not all positions are covered)."""
        key, t, j = self.content[n]
        base, st = arr, []
        while z3.is_store(base): st.append(base); base = base.arg(0)
        if not base.eq(self.cur[n]): return None
        cov = K
        for x in reversed(st):
            d = z3.simplify(x.arg(1) - cov)
            if not z3.is_int_value(d) or d.as_long() != 0: return None
            if not same_term(x.arg(2), z3.substitute(t, (j, x.arg(1)))): return None
            cov = z3.simplify(cov + 1)
        d = z3.simplify(length - cov)
        if not (z3.is_int_value(d) and d.as_long() <= 0): return None
        return T.mktab(t, j)
    def ran(self):
        """(function of k: the iteration continues, complete?)"""
        if hasattr(self, '_ran'): return self._ran
        ds = []; full = True
        for cs, _ in self.nexts:
            c, f = self.usable(cs)
            ds.append(c); full = full and f
        kk = z3.Int('cv_k')
        e = z3.simplify(z3.Or(*ds) if len(ds) > 1 else ds[0])
        if z3.is_true(e): self._ran = None
        else:
            e = factor(e)
            self._ran = ((lambda k: z3.simplify(z3.substitute(e, (kk, k)))), full, e)
        return self._ran
    def least(self):
        """Closed form of the iteration count at the exit, when the continuation condition is a function of k."""
        if self.pri is None: return None
        R = self.ran()
        if R is None or not R[1]: return None
        kk = z3.Int('cv_k')
        if len(T.conjs(R[2])) == 1:
            b = T.bound_of(R[2], kk)
            if b is not None: return b
        try: L = T.mkleast(R[2], kk)
        except Unsup: return None
        return L

def same_term(a, b):
    a, b = z3.simplify(T.expand(a)), z3.simplify(T.expand(b))
    if a.eq(b): return True
    s = z3.Solver(); s.set('rlimit', 100000)
    s.add(a != b)
    return s.check() == z3.unsat
def factor(e):
    """Or of conjunctions: pull out the common conjuncts and drop complementary rests."""
    if not z3.is_or(e): return e
    ds = [T.conjs(d) for d in e.children()]
    common = [c for c in ds[0] if all(any(c.eq(x) for x in d) for d in ds[1:])]
    if not common: return e
    rest = [[c for c in d if not any(c.eq(x) for x in common)] for d in ds]
    if any(not r for r in rest): return z3.And(*common) if len(common) > 1 else common[0]
    r = z3.Or(*[z3.And(*x) if len(x) > 1 else x[0] for x in rest])
    s = z3.Solver(); s.set('timeout', 100); s.add(z3.Not(r))
    if s.check() == z3.unsat: return z3.And(*common) if len(common) > 1 else common[0]
    return z3.And(*(common + [r]))

def consts_of(t, acc=None, seen=None):
    acc = set() if acc is None else acc; seen = set() if seen is None else seen
    if t.get_id() in seen: return acc
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(t.decl().name())
    for c in t.children(): consts_of(c, acc, seen)
    return acc
