"""Symbolic evaluation of THIR with contracts and loop invariants.

Every function body is executed once over symbolic inputs; loops are cut by inferred-and-checked invariants, calls to
functions under contract use the contract, other local calls are inlined.  The result is a list of proof obligations.
"""
import json, re, time
import z3
from values import *
import theory as T
import infer
import values
def ctr(): return values._ctr[0]

class State:
    __slots__ = ('store', 'pc')
    def __init__(s, store=None, pc=None): s.store, s.pc = store if store is not None else {}, pc
    def fork(s): return State(dict(s.store), s.pc)
    def assume(s, f):
        if z3.is_true(f): return s
        s.pc = (s.pc, f)
        return s
    def facts(s):
        out = []; p = s.pc
        while p is not None:
            out.append(p[1]); p = p[0]
        out.reverse()
        return out

class Oblig:
    __slots__ = ('hyps', 'goal', 'name', 'tags', 'kind', 'where')
    def __init__(s, hyps, goal, name, tags, kind, where): s.hyps, s.goal, s.name, s.tags, s.kind, s.where = hyps, goal, name, tags, kind, where

class Dead(Exception): pass

def lastp(p): return p.split('::')[-1]

class Prog:
    def __init__(self, data):
        self.fns = {f['path']: f for f in data['fns']}
        self.adts = {a['path']: a for a in data['adts']}
        self.impls = data['impls']
        self.byname = {}
        for a in data['adts']:
            self.byname.setdefault(lastp(a['path']), a)
            if a['enum']: VARS[lastp(a['path'])] = [v['name'] for v in a['variants']]

class Frame:
    __slots__ = ('id', 'parent', 'tenv', 'fn')
    def __init__(s, id, parent, tenv, fn): s.id, s.parent, s.tenv, s.fn = id, parent, tenv, fn

SZ = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'usize': 8, 'isize': 8, 'f64': 8}
def minsize(t):
    """A lower bound of the size in bytes of an element (an allocation never exceeds isize::MAX bytes)."""
    if isinstance(t, Sc): return SZ.get(t.ty, 0)
    if isinstance(t, St): return sum(minsize(x) for k, x in t.f.items())
    return 0

class Engine:
    def __init__(self, prog, contracts, root, behaviour, models, cands=None, opts=None):
        self.P, self.C, self.root, self.beh, self.models = prog, contracts, root, behaviour, models
        self.opts = opts or {}
        self.frames = {}
        self.nfr = 0
        self.ntmp = 0
        self.obs = []            # hard obligations
        self.soft = []           # (loopkey, candkey, Oblig)
        self.mute = 0
        self.cands = cands if cands is not None else {}   # loopkey -> set of dropped candidate keys
        self.mods = {}           # loopkey -> {cell label: set(leaf names)}
        self.depth = 0
        self.loops_seen = {}
        self.fns_used = set()
        self.assumed = set()
        self.entry = {}
        self.nq = 0
        self.deadline = time.time() + self.opts.get('gen_budget', 240)
        self.ghost_ints = []
        self.noise = {}          # ids of facts that hold by construction (ranges, checked obligations)
        self.used_models = set(); self.cons_used = set(); self.opaque_traits = {}; self.opaque_fn = None

    # -------------------------------------------------------------- helpers
    def tick(self):
        if time.time() > self.deadline: raise Unsup('generation budget exceeded')
    def frame(self, parent, tenv, fn):
        self.nfr += 1
        f = Frame(self.nfr, parent, tenv, fn)
        self.frames[self.nfr] = f
        return f
    def tmp(self, st, v, label='t'):
        self.ntmp += 1
        c = (label, self.ntmp)
        st.store[c] = v
        return Ref(c)
    def feasible(self, st):
        self.tick()
        if st.pc is None: return True
        s = z3.Solver()
        s.set('timeout', 150)
        n = 0
        for f in st.facts():
            if not T.has_quant(f): s.add(f); n += 1
        for ax in T.ground_facts(st.facts()): s.add(ax)
        self.nq += 1
        return s.check() != z3.unsat
    def split(self, st, cond):
        """Fork on a z3 Bool: list of (state, bool)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond): return [(st, True)]
        if z3.is_false(cond): return [(st, False)]
        out = []
        a = st.fork().assume(cond)
        b = st.fork().assume(z3.Not(cond))
        fa = self.feasible(a)
        if not fa: return [(b, False)]
        if self.feasible(b): return [(a, True), (b, False)]
        return [(a, True)]
    def oblige(self, st, goal, name, kind='panic', tags=('C22',), where=''):
        self.noise[goal.get_id()] = goal
        if self.mute:
            st.assume(goal); return
        g = z3.simplify(goal) if not T.has_quant(goal) else goal
        if not z3.is_true(g):
            self.obs.append(Oblig(st.pc, goal, name, tuple(tags), kind, where))
        else:
            self.obs.append(Oblig(None, z3.BoolVal(True), name, tuple(tags), kind, where))
        st.assume(goal)

    # -------------------------------------------------------------- store
    def lookup(self, st, fr, v):
        f = fr
        while f is not None:
            if (f.id, v) in st.store: return (f.id, v)
            f = f.parent
        raise Unsup('unbound variable ' + v)
    def read(self, st, r):
        v = st.store[r.cell] if r.cell in st.store else self._nocell(r)
        for p in r.path: v = self.proj(st, v, p)
        return v
    def _nocell(self, r): raise Unsup('dangling cell %r' % (r,))
    def proj(self, st, v, p):
        if p[0] == 'f':
            if isinstance(v, St):
                if p[1] in v.f: return v.f[p[1]]
            raise Unsup('field %s of %r' % (p[1], v))
        if p[0] == 'i':
            if isinstance(v, LV):
                k = z3.simplify(p[1])
                if z3.is_int_value(k): return v.items[k.as_long()]
                v = to_vc(v)
            if isinstance(v, Vc):
                e = vc_get(v, p[1])
                for nm, z, ty in lwalk(e): self.range_fact(st, z, ty)
                return e
            raise Unsup('index of %r' % (v,))
        if p[0] == 'v':
            if isinstance(v, En):
                if v.var != p[1]: raise Dead()
                return v.f[p[2]]
            if isinstance(v, SEn):
                d = v.f.get(p[1])
                if d is None: raise Dead()
                return d[p[2]]
        if p[0] == 'm':     # map value by key
            return rebuild(v.tmpl, [z3.Select(a, p[1]) for a in v.arrs])
        raise Unsup('projection %s of %r' % (p, v))
    def range_fact(self, st, z, ty):
        if ty in INTS and not z3.is_int_value(z):
            lo, hi = INTS[ty]
            self.fact(st, z3.And(z >= lo, z <= hi))
        elif ty in ('len', 'idx') and not z3.is_int_value(z):
            self.fact(st, z3.And(z >= 0, z <= ISIZE_MAX))
    def fact(self, st, f):
        self.noise[f.get_id()] = f
        st.assume(f)
    def write(self, st, r, x):
        if r.cell not in st.store: self._nocell(r)
        st.store[r.cell] = self._upd(st, st.store[r.cell], r.path, x)
    def _upd(self, st, v, path, x):
        if not path: return x
        p, rest = path[0], path[1:]
        if p[0] == 'f': return v.upd(p[1], self._upd(st, v.f[p[1]], rest, x))
        if p[0] == 'i':
            if isinstance(v, LV):
                k = z3.simplify(p[1])
                if z3.is_int_value(k):
                    items = list(v.items); items[k.as_long()] = self._upd(st, items[k.as_long()], rest, x)
                    return LV(items)
                v = to_vc(v)
            e = vc_get(v, p[1]) if rest else None
            return vc_store(v, p[1], self._upd(st, e, rest, x))
        if p[0] == 'v':
            d = dict(v.f) if isinstance(v, En) else dict(v.f[p[1]])
            d[p[2]] = self._upd(st, d[p[2]], rest, x)
            if isinstance(v, En): return En(v.name, v.var, d)
            f = dict(v.f); f[p[1]] = d
            return SEn(v.name, v.tag, f)
        if p[0] == 'm':
            e = rebuild(v.tmpl, [z3.Select(a, p[1]) for a in v.arrs])
            e = self._upd(st, e, rest, x)
            return Mp(v.dom, v.tmpl, [z3.Store(a, p[1], z) for a, z in zip(v.arrs, leaves(coerce(e, v.tmpl)))], v.kty)
        raise Unsup('write %s' % (p,))
    def deref(self, st, v):
        """Strip references."""
        while isinstance(v, Ref): v = self.read(st, v)
        return v
    def chase(self, st, v):
        """Innermost reference: a Ref to a non-reference value, or a Sl."""
        while isinstance(v, Ref):
            x = self.read(st, v)
            if isinstance(x, (Ref, Sl)): v = x
            else: return v
        if isinstance(v, Sl): return v
        return None
    def as_slice(self, st, v):
        """Slice view (Sl) of a reference to a vector, array or slice, or of an owned one."""
        r = self.chase(st, v)
        if r is None: r = self.tmp(st, v)
        if isinstance(r, Sl): return r
        x = self.read(st, r)
        if isinstance(x, LV): return Sl(r, z3.IntVal(0), z3.IntVal(len(x.items)))
        if isinstance(x, Vc):
            self.range_fact(st, x.n, 'len')
            return Sl(r, z3.IntVal(0), x.n)
        raise Unsup('slice of %r' % (x,))
    def elem(self, sl, i):
        return sl.ref.to(('i', z3.simplify(sl.lo + i)))

    # -------------------------------------------------------------- types
    def sub(self, t, tenv):
        if t is None: return None
        k = t['k']
        if k == 'param':
            return tenv.get(t['n'], t) if tenv else t
        if k in ('ref', 'ptr', 'slice', 'array'): return dict(t, t=self.sub(t['t'], tenv))
        if k == 'adt': return dict(t, args=[self.sub(a, tenv) for a in t['args']])
        if k == 'tuple': return dict(t, ts=[self.sub(a, tenv) for a in t['ts']])
        return t
    def prim(self, t):
        return t['n'] if t['k'] == 'prim' else None
    def mk(self, st, t, name, depth=0):
        """A symbolic value of a type."""
        if depth > 8: raise Unsup('deep type')
        k = t['k']
        if k == 'prim':
            z = fresh(name, sort_of(t['n']))
            self.range_fact(st, z, t['n'])
            return Sc(z, t['n'])
        if k == 'str': return Sc(fresh(name, STR), 'str')
        if k == 'ref':
            if t['t']['k'] == 'str': return Sc(fresh(name, STR), 'str')
            if t['t']['k'] in ('slice',):
                r = self.tmp(st, self.mkvec(st, t['t']['t'], name, depth), name)
                return Sl(r, z3.IntVal(0), st.store[r.cell].n)
            return self.tmp(st, self.mk(st, t['t'], name, depth + 1), name)
        if k == 'tuple': return St('tuple', {str(i): self.mk(st, x, '%s_%d' % (name, i), depth + 1) for i, x in enumerate(t['ts'])})
        if k == 'dyn':
            if t['p'].endswith('HasSamplerResources'): return self.mkres(st, name)
            return Sc(fresh(name, OPQ), 'opq:' + lastp(t['p']))
        if k == 'param': return Sc(fresh(name, OPQ), 'opq:' + t['n'])
        if k == 'adt':
            p = t['p']; l = lastp(p)
            if l == 'Box': return self.mk(st, t['args'][0], name, depth)
            if l in ('Arc', 'Mutex', 'Rc'): return self.mk(st, t['args'][0], name, depth)
            if l in ('String', 'Cow'): return Sc(fresh(name, STR), 'str')
            if l == 'PhantomData': return UNIT
            if l == 'Vec': return self.mkvec(st, t['args'][0], name, depth)
            if l == 'Option':
                tag = fresh(name + '_tag', I)
                st.assume(z3.Or(tag == 0, tag == 1))
                return SEn('Option', tag, {'None': {}, 'Some': {'0': self.mk(st, t['args'][0], name, depth + 1)}})
            if l == 'Result':
                tag = fresh(name + '_tag', I)
                st.assume(z3.Or(tag == 0, tag == 1))
                return SEn('Result', tag, {'Ok': {'0': self.mk(st, t['args'][0], name, depth + 1)}, 'Err': {'0': self.mk(st, t['args'][1], name, depth + 1)}})
            if l == 'Error' and p.startswith('anyhow'): return St('anyhow', {'e': Sc(fresh(name, OPQ), 'opq:err')})
            if p in self.P.adts:
                a = self.P.adts[p]
                te = dict(zip(a['generics'], t['args']))
                if not a['enum']:
                    return self.mkstruct(st, a, te, name, depth)
                tag = fresh(name + '_tag', I)
                st.assume(z3.And(tag >= 0, tag < len(a['variants'])))
                d = {}
                for v in a['variants']:
                    d[v['name']] = {fn: self.mk(st, self.sub(ft, te), name + '_' + v['name'], depth + 1) for fn, ft in v['fields']}
                return SEn(l, tag, d)
            return Sc(fresh(name, OPQ), 'opq:' + l)
        if k == 'other' and 'fn' in t.get('s', ''): return Sc(fresh(name, OPQ), 'opq:fn')
        raise Unsup('symbolic value of type %s' % json.dumps(t)[:80])
    def mkstruct(self, st, a, te, name, depth):
        d = {fn: self.mk(st, self.sub(ft, te), name + '_' + fn, depth + 1) for fn, ft in a['variants'][0]['fields']}
        if a['path'] == 'types::Logit': d['g'] = Sc(fresh(name + '_g', I), 'ghost')
        return St(lastp(a['path']), d)
    def mkvec(self, st, et, name, depth=0):
        scratch = State({}, None)
        t = sym_template(self.mk(scratch, et, name + '_e', depth + 1))
        n = fresh(name + '_len', I)
        st.assume(z3.And(n >= 0, n <= ISIZE_MAX // max(1, minsize(t))))
        return Vc(n, t, [fresh(name + nm.replace('.', '_'), z3.ArraySort(I, z.sort())) for nm, z, _ in lwalk(t)])
    def mkres(self, st, name):
        return St('Res', {'rng': boolv(fresh(name + '_has_rng', B)), 'tok': boolv(fresh(name + '_has_tok', B)),
                          'tokens': self.mkvec(st, {'k': 'prim', 'n': 'u32'}, name + '_tokens'),
                          'draws': Sc(z3.IntVal(0), 'ghost'), 'didx': Sc(fresh('didx', I), 'ghost'), 'dn': Sc(fresh('dn', I), 'ghost'),
                          'dw': Sc(fresh('dw', z3.ArraySort(I, F)), 'ghostarr')})
    def tyname(self, v):
        if isinstance(v, St): return v.name
        if isinstance(v, (En, SEn)): return v.name
        if isinstance(v, Sc): return v.ty
        if isinstance(v, (Vc, LV)): return 'Vec'
        return type(v).__name__

    # -------------------------------------------------------------- sequencing
    def bind(self, rs, f):
        out = []
        for st, v in rs:
            if isinstance(v, Abr): out.append((st, v))
            else:
                try: out.extend(f(st, v))
                except Dead: pass
        return out
    def evs(self, st, es, fr):
        """Evaluate expressions left to right -> [(st, [values]) or (st, Abr)]."""
        rs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in rs:
                if isinstance(vs, Abr): nxt.append((s, vs)); continue
                for s2, v in self.ev(s, e, fr):
                    nxt.append((s2, v if isinstance(v, Abr) else vs + [v]))
            rs = nxt
        return rs

    # -------------------------------------------------------------- places
    def place(self, st, e, fr):
        k = e['k']
        if k in ('Var', 'Upvar'): return [(st, Ref(self.lookup(st, fr, e['v'])))]
        if k == 'Field':
            return self.bind(self.place(st, e['e'], fr), lambda s, r: [(s, self.pfield(s, r, e['n']))])
        if k == 'Deref':
            def f(s, v):
                if isinstance(v, (Ref, Sl)): return [(s, v)]
                return [(s, self.tmp(s, v))]
            t = e['e']['ty']
            if t['k'] == 'adt':     # Box: transparent
                return self.place(st, e['e'], fr)
            return self.bind(self.ev(st, e['e'], fr), f)
        if k == 'Index':
            def f(s, r):
                def g(s2, i):
                    sl = self.as_slice(s2, r)
                    self.oblige(s2, z3.And(i.z >= 0, i.z < sl.n), 'index in bounds', where=e['sp'])
                    return [(s2, self.elem(sl, i.z))]
                return self.bind(self.ev(s, e['i'], fr), g)
            return self.bind(self.place(st, e['e'], fr), f)
        return self.bind(self.ev(st, e, fr), lambda s, v: [(s, self.tmp(s, v))])
    def pfield(self, st, r, n):
        v = self.read(st, r)
        if isinstance(v, Ref): raise Unsup('field of reference')
        return r.to(('f', n))

    # -------------------------------------------------------------- patterns
    def match(self, st, r, p, fr):
        """Match place r (Ref or Sl) against pattern -> [(state, bool)]; bindings are stored on success."""
        k = p['k']
        if k == 'Wild': return [(st, True)]
        if k == 'Bind':
            def bindit(s):
                if p['by'] == 'val': s.store[(fr.id, p['v'])] = r if isinstance(r, Sl) else self.read(s, r)
                else: s.store[(fr.id, p['v'])] = r
                return s
            if p.get('sub'):
                return [(bindit(s) if b else s, b) for s, b in self.match(st, r, p['sub'], fr)]
            return [(bindit(st), True)]
        if k == 'Deref':
            v = self.read(st, r) if isinstance(r, Ref) else r
            if isinstance(v, (Ref, Sl)): return self.match(st, v, p['sub'], fr)
            return self.match(st, r, p['sub'], fr)
        if k == 'Leaf':
            return self.matchall(st, [(r.to(('f', n)), q) for n, q in p['subs'] if q['k'] != 'Wild'], fr)
        if k == 'Variant':
            v = self.read(st, r)
            if not isinstance(v, (En, SEn)): raise Unsup('variant pattern on %r' % (v,))
            out = []
            cond = is_var(v, p['variant'])
            for s, b in self.split(st, cond):
                if not b: out.append((s, False)); continue
                if isinstance(v, SEn) and p['subs'] and v.f.get(p['variant']) is None: continue
                out.extend(self.matchall(s, [(r.to(('v', p['variant'], n)), q) for n, q in p['subs'] if q['k'] != 'Wild'], fr))
            return out
        if k == 'Const':
            v = self.deref(st, self.read(st, r) if isinstance(r, Ref) else r)
            return self.split(st, self.const_eq(v, p))
        if k == 'Or':
            out = []; pend = [st]
            for q in p['pats']:
                nxt = []
                for s in pend:
                    for s2, b in self.match(s, r, q, fr):
                        (out.append((s2, True)) if b else nxt.append(s2))
                pend = nxt
            return out + [(s, False) for s in pend]
        if k == 'Slice':
            sl = self.as_slice(st, r)
            pre, suf = p['prefix'], p['suffix']
            m = len(pre) + len(suf)
            cond = (sl.n >= m) if p['slice'] else (sl.n == m)
            out = []
            for s, b in self.split(st, cond):
                if not b: out.append((s, False)); continue
                ps = [(self.elem(sl, z3.IntVal(i)), q) for i, q in enumerate(pre)]
                ps += [(self.elem(sl, sl.n - len(suf) + i), q) for i, q in enumerate(suf)]
                if p['slice']: ps.append((Sl(sl.ref, sl.lo + len(pre), sl.n - m), p['slice']))
                out.extend(self.matchall(s, ps, fr))
            return out
        raise Unsup('pattern ' + k)
    def matchall(self, st, items, fr):
        if not items: return [(st, True)]
        (r, p), rest = items[0], items[1:]
        out = []
        for s, b in self.match(st, r, p, fr):
            if b: out.extend(self.matchall(s, rest, fr))
            else: out.append((s, False))
        return out
    def const_eq(self, v, p):
        t = p['s']
        if isinstance(v, Sc):
            if v.ty == 'str':
                m = re.match(r'Branch\(\[(.*)\]\)', t)
                if m is None: raise Unsup('string pattern ' + t)
                bs = bytes(int(x.strip().split('_')[0]) for x in m.group(1).split(',') if x.strip())
                return T.streq(v.z, sconst(bs.decode()))
            m = re.match(r'(?:Leaf\()?(?:0x([0-9a-fA-F]+)|(-?\d+)|(true|false))', t)
            if v.ty == 'bool' and m:
                b = m.group(3) == 'true' if m.group(3) else int(m.group(1) or m.group(2), 16) != 0
                return v.z if b else z3.Not(v.z)
            if v.ty in INTS and m and not m.group(3):
                n = int(m.group(1), 16) if m.group(1) else int(m.group(2))
                lo, hi = INTS[v.ty]
                if lo < 0 and n > hi: n += 2 * lo
                return v.z == n
        raise Unsup('constant pattern %s' % t)

    # -------------------------------------------------------------- conditions
    def cond(self, st, e, fr):
        """-> [(st, True/False) or (st, Abr)]"""
        k = e['k']
        if k == 'Let':
            out = []
            for s, r in self.place(st, e['e'], fr):
                if isinstance(r, Abr): out.append((s, r))
                else: out.extend(self.match(s, r, e['pat'], fr))
            return out
        if k == 'Logic':
            out = []
            for s, b in self.cond(st, e['l'], fr):
                if isinstance(b, Abr): out.append((s, b))
                elif (e['op'] == 'And') == b: out.extend(self.cond(s, e['r'], fr))
                else: out.append((s, b))
            return out
        if k == 'Un' and e['op'] == 'Not':
            return [(s, b if isinstance(b, Abr) else (not b)) for s, b in self.cond(st, e['e'], fr)]
        out = []
        for s, v in self.ev(st, e, fr):
            if isinstance(v, Abr): out.append((s, v))
            else: out.extend(self.split(s, v.z))
        return out

    # -------------------------------------------------------------- expressions
    def ev(self, st, e, fr):
        self.tick()
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsup('expression %s at %s' % (e['k'] + ' ' + e.get('what', ''), e.get('sp')))
        try: return m(st, e, fr)
        except Dead: return []
    def e_Block(self, st, e, fr):
        rs = [(st, UNIT)]
        for s in e['stmts']:
            nxt = []
            for t, v in rs:
                if isinstance(v, Abr): nxt.append((t, v)); continue
                try: nxt.extend(self.stmt(t, s, fr))
                except Dead: pass
            rs = nxt
        if e['e'] is not None:
            rs = self.bind(rs, lambda s, _: self.ev(s, e['e'], fr))
        if e['tb']:
            lab = e['scope']
            rs = [(s, v.val if isinstance(v, Abr) and v.kind == 'break' and v.label == lab else v) for s, v in rs]
        return rs
    def stmt(self, st, s, fr):
        if s['k'] == 'Expr': return self.bind(self.ev(st, s['e'], fr), lambda t, v: [(t, UNIT)])
        if s['init'] is None:
            return [(st, UNIT)]
        def f(t, r):
            out = []
            for t2, b in self.match(t, r, s['pat'], fr):
                if b: out.append((t2, UNIT))
                elif s['els'] is not None: out.extend(self.ev(t2, s['els'], fr))
                else: raise Unsup('refutable let')
            return out
        if s['pat']['k'] == 'Bind' and s['pat']['by'] == 'val' and not s['pat'].get('sub'):
            def g(t, v):
                t.store[(fr.id, s['pat']['v'])] = v
                return [(t, UNIT)]
            return self.bind(self.ev(st, s['init'], fr), g)
        return self.bind(self.place(st, s['init'], fr), f)
    def e_If(self, st, e, fr):
        out = []
        for s, b in self.cond(st, e['cond'], fr):
            if isinstance(b, Abr): out.append((s, b))
            elif b: out.extend(self.ev(s, e['then'], fr))
            elif e['els'] is not None: out.extend(self.ev(s, e['els'], fr))
            else: out.append((s, UNIT))
        return self.merge(st, out)
    def merge(self, st0, outs):
        """Join two normal outcomes that agree except for scalar leaves of values."""
        norm = [(s, v) for s, v in outs if not isinstance(v, Abr)]
        if len(norm) != 2 or len(outs) != 2 or self.opts.get('nomerge'): return outs
        (a, va), (b, vb) = norm
        base = st0.pc
        ea, eb = self.extra(a.pc, base), self.extra(b.pc, base)
        if ea is None or eb is None or not ea or not eb: return outs
        try:
            if not same(va, vb): return outs
            ca, cb = z3.And(*ea), z3.And(*eb)
            if T.has_quant(ca) or T.has_quant(cb): return outs
            keys = set(a.store) & set(b.store) & (set(st0.store))
            store = {}
            for k in keys:
                x, y = a.store[k], b.store[k]
                if x is y: store[k] = x; continue
                if not same(x, y): return outs
                lx, ly = leaves(x), leaves(y)
                if all(p.eq(q) for p, q in zip(lx, ly)): store[k] = x; continue
                # only scalars are merged
                if any((not p.eq(q)) and z3.is_array(p) for p, q in zip(lx, ly)): return outs
                if isinstance(x, (Ref, Sl)): return outs
                store[k] = rebuild(x, [p if p.eq(q) else z3.If(ea[0], p, q) for p, q in zip(lx, ly)])
            if not (z3.simplify(z3.Not(ea[0])).eq(z3.simplify(eb[0]))): return outs
            lx, ly = leaves(va), leaves(vb)
            if any((not p.eq(q)) and z3.is_array(p) for p, q in zip(lx, ly)): return outs
            if self.refs_tmp(va, store): return outs
            v = rebuild(va, [p if p.eq(q) else z3.If(ea[0], p, q) for p, q in zip(lx, ly)])
        except Unsup: return outs
        ns = State(store, base)
        for k in set(a.store) - set(store): ns.store.setdefault(k, a.store[k])
        if len(ea) > 1: ns.assume(z3.Implies(ea[0], z3.And(*ea[1:])))
        if len(eb) > 1: ns.assume(z3.Implies(z3.Not(ea[0]), z3.And(*eb[1:])))
        return [(ns, v)]
    def refs_tmp(self, v, store):
        if isinstance(v, Ref): return v.cell not in store
        if isinstance(v, Sl): return v.ref.cell not in store
        if isinstance(v, (St, En)): return any(self.refs_tmp(x, store) for x in v.f.values())
        if isinstance(v, SEn): return any(self.refs_tmp(x, store) for d in v.f.values() if d for x in d.values())
        if isinstance(v, LV): return any(self.refs_tmp(x, store) for x in v.items)
        return False
    def extra(self, pc, base):
        out = []
        while pc is not base:
            if pc is None: return None
            out.append(pc[1]); pc = pc[0]
        out.reverse()
        return out
    def e_Match(self, st, e, fr):
        out = []
        for s, r in self.place(st, e['e'], fr):
            if isinstance(r, Abr): out.append((s, r)); continue
            pend = [s]
            for arm in e['arms']:
                nxt = []
                for p in pend:
                    try: ms = self.match(p, r, arm['pat'], fr)
                    except Dead: ms = []
                    for s2, b in ms:
                        if not b: nxt.append(s2); continue
                        if arm['guard'] is not None:
                            for s3, c in self.cond(s2, arm['guard'], fr):
                                if isinstance(c, Abr): out.append((s3, c))
                                elif c: out.extend(self.ev(s3, arm['body'], fr))
                                else: nxt.append(s3)
                        else: out.extend(self.ev(s2, arm['body'], fr))
                pend = nxt
                if not pend: break
            # exhaustive by type checking; states left over are infeasible
        return out
    def e_Var(self, st, e, fr): return [(st, st.store[self.lookup(st, fr, e['v'])])]
    e_Upvar = e_Var
    def rd(self, st, r):
        if isinstance(r, Sl): return r
        return self.read(st, r)
    def e_Field(self, st, e, fr): return self.bind(self.place(st, e, fr), lambda s, r: [(s, self.rd(s, r))])
    e_Index = e_Field
    e_Deref = e_Field
    def e_Borrow(self, st, e, fr): return self.place(st, e['e'], fr)
    e_RawBorrow = e_Borrow
    def e_Never(self, st, e, fr): return self.ev(st, e['e'], fr)
    def e_Coerce(self, st, e, fr): return self.ev(st, e['e'], fr)
    def e_Zst(self, st, e, fr):
        t = e['ty']
        if t['k'] == 'fndef': return [(st, Fn(t, fr.tenv))]
        return [(st, UNIT)]
    def e_Lit(self, st, e, fr):
        lk, v = e['lk'], e['v']
        t = e['ty']
        if lk == 'int':
            n = int(v); n = -n if e['neg'] else n
            if t.get('n') in ('f32', 'f64'): lk = 'float'
            else: return [(st, iv(n, t['n']))]
        if lk == 'float':
            x = float(str(v).replace('_', '')); x = -x if e['neg'] else x
            return [(st, Sc(fconst(x), 'f32') if t['n'] == 'f32' else Sc(dconst(x), 'f64'))]
        if lk == 'bool': return [(st, boolv(bool(v)))]
        if lk == 'str': return [(st, Sc(sconst(v), 'str'))]
        if lk == 'char': return [(st, iv(ord(v), 'char'))]
        if lk == 'other': return [(st, Sc(fresh('lit', OPQ), 'opq:lit'))]
        raise Unsup('literal ' + lk)
    def e_Const(self, st, e, fr):
        p = e['p']
        m = re.search(r'<impl (\w+)>::(MAX|MIN)$', p) or re.search(r'core::(\w+)::(MAX|MIN)$', p)
        if m and m.group(1) in INTS: return [(st, iv(INTS[m.group(1)][1 if m.group(2) == 'MAX' else 0], m.group(1)))]
        fl = {'INFINITY': float('inf'), 'NEG_INFINITY': float('-inf'), 'NAN': float('nan'), 'MAX': 3.4028234663852886e38, 'MIN': -3.4028234663852886e38,
              'EPSILON': 2.0**-23, 'MIN_POSITIVE': 2.0**-126}
        m = re.search(r'(?:<impl f32>|f32)::(\w+)$', p)
        if m and m.group(1) in fl: return [(st, Sc(fconst(fl[m.group(1)]), 'f32'))]
        raise Unsup('constant ' + p)
    def e_Tuple(self, st, e, fr): return self.bind(self.evs(st, e['es'], fr), lambda s, vs: [(s, tup(*vs))])
    def e_Array(self, st, e, fr): return self.bind(self.evs(st, e['es'], fr), lambda s, vs: [(s, LV(vs))])
    def e_Repeat(self, st, e, fr):
        m = re.search(r'\d+', e['n'])
        if not m or int(m.group(0)) > 16: raise Unsup('array repeat')
        return self.bind(self.ev(st, e['e'], fr), lambda s, v: [(s, LV([v] * int(m.group(0))))])
    def e_Adt(self, st, e, fr):
        names = [n for n, _ in e['fields']]
        l = lastp(e['p'])
        def f(s, vs):
            d = dict(zip(names, vs))
            if l in ('String', 'Cow'): return [(s, vs[0])]
            if e['enum']: return [(s, En(l, e['variant'], d))]
            if e['p'] == 'types::Logit': d.setdefault('g', Sc(fresh('newg', I), 'ghost'))
            if l in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeInclusive', 'RangeToInclusive'): return [(s, St('range:' + l, d))]
            if l == 'PhantomData': return [(s, UNIT)]
            return [(s, St(l, d))]
        if e['base'] is not None:
            if isinstance(e['base'], str): raise Unsup('default fields')
            def g(s, vs):
                base, vs = vs[0], vs[1:]
                base = self.deref(s, base)
                d = dict(base.f); d.update(dict(zip(names, vs)))
                return [(s, St(base.name, d))]
            return self.bind(self.evs(st, [e['base']] + [x for _, x in e['fields']], fr), g)
        return self.bind(self.evs(st, [x for _, x in e['fields']], fr), f)
    def e_Closure(self, st, e, fr): return [(st, Clo(fr.id, e))]
    def e_Un(self, st, e, fr):
        def f(s, v):
            if e['op'] == 'Not':
                if v.ty == 'bool': return [(s, boolv(z3.Not(v.z)))]
                raise Unsup('bitwise not')
            if v.ty == 'f32': return [(s, Sc(T.fneg(v.z), 'f32'))]
            if v.ty == 'f64': return [(s, Sc(T.dneg(v.z), 'f64'))]
            lo, hi = INTS[v.ty]
            self.oblige(s, -v.z <= hi, 'negation does not overflow', where=e['sp'])
            return [(s, Sc(-v.z, v.ty))]
        return self.bind(self.ev(st, e['e'], fr), f)
    def e_Logic(self, st, e, fr):
        out = []
        # pure right operand: build the formula, otherwise fork
        for s, b in self.ev(st, e['l'], fr):
            if isinstance(b, Abr): out.append((s, b)); continue
            c = z3.simplify(b.z)
            for s2, d in self.split(s, c):
                if (e['op'] == 'And') == d: out.extend(self.ev(s2, e['r'], fr))
                else: out.append((s2, boolv(d)))
        return self.merge(st, out)
    def e_Bin(self, st, e, fr):
        def f(s, vs):
            a, b = vs
            return self.binop(s, e['op'], a, b, e.get('sp', ''))
        return self.bind(self.evs(st, [e['l'], e['r']], fr), f)
    def binop(self, st, op, a, b, where=''):
        a, b = self.deref(st, a), self.deref(st, b)
        if not isinstance(a, Sc) or not isinstance(b, Sc):
            if op == 'Eq': return [(st, boolv(self.eq(st, a, b)))]
            if op == 'Ne': return [(st, boolv(z3.Not(self.eq(st, a, b))))]
            raise Unsup('operator %s on %r' % (op, a))
        if a.ty == 'f32':
            if op in T.FCMP: return [(st, boolv(T.FCMP[op](a.z, b.z)))]
            if op in T.FOP: return [(st, Sc(T.FOP[op](a.z, b.z), 'f32'))]
            raise Unsup('float op ' + op)
        if a.ty == 'f64':
            if op in T.DCMP: return [(st, boolv(T.DCMP[op](a.z, b.z)))]
            if op in T.DOP: return [(st, Sc(T.DOP[op](a.z, b.z), 'f64'))]
            raise Unsup('f64 op ' + op)
        if a.ty == 'bool':
            r = {'Eq': lambda: a.z == b.z, 'Ne': lambda: a.z != b.z, 'BitAnd': lambda: z3.And(a.z, b.z), 'BitOr': lambda: z3.Or(a.z, b.z), 'BitXor': lambda: z3.Xor(a.z, b.z)}.get(op)
            if r: return [(st, boolv(r()))]
        if a.ty == 'str':
            if op == 'Eq': return [(st, boolv(T.streq(a.z, b.z)))]
            if op == 'Ne': return [(st, boolv(z3.Not(T.streq(a.z, b.z))))]
        if a.ty in INTS or a.ty == 'char':
            cmp = {'Eq': lambda: a.z == b.z, 'Ne': lambda: a.z != b.z, 'Lt': lambda: a.z < b.z, 'Le': lambda: a.z <= b.z, 'Gt': lambda: a.z > b.z, 'Ge': lambda: a.z >= b.z}.get(op)
            if cmp: return [(st, boolv(cmp()))]
            lo, hi = INTS[a.ty]
            if op in ('Add', 'Sub', 'Mul'):
                r = {'Add': a.z + b.z, 'Sub': a.z - b.z, 'Mul': a.z * b.z}[op]
                self.oblige(st, z3.And(r >= lo, r <= hi), 'arithmetic does not overflow', where=where)
                return [(st, Sc(z3.simplify(r), a.ty))]
            if op in ('Div', 'Rem'):
                self.oblige(st, b.z != 0, 'divisor is not zero', where=where)
                if lo < 0: raise Unsup('signed division')
                return [(st, Sc(a.z / b.z if op == 'Div' else a.z % b.z, a.ty))]
        if op in ('Eq', 'Ne') and a.z.sort() == b.z.sort():
            return [(st, boolv(a.z == b.z if op == 'Eq' else a.z != b.z))]
        raise Unsup('operator %s on %s' % (op, a.ty))
    def eq(self, st, a, b):
        """Structural equality of two values (PartialEq derive semantics)."""
        a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty == 'f32': return T.feq(a.z, b.z)
            if a.ty == 'str': return T.streq(a.z, b.z)
            return a.z == b.z
        if isinstance(a, St) and isinstance(b, St):
            return z3.And(*[self.eq(st, a.f[k], b.f[k]) for k in a.f if k != 'g']) if a.f else z3.BoolVal(True)
        if isinstance(a, (En, SEn)) and isinstance(b, (En, SEn)):
            if isinstance(a, En) and isinstance(b, En) and a.var != b.var: return z3.BoolVal(False)
            conj = [tagof(a) == tagof(b)]
            for var in VARS[a.name]:
                fa = a.f if isinstance(a, En) and a.var == var else (a.f.get(var) if isinstance(a, SEn) else None)
                fb = b.f if isinstance(b, En) and b.var == var else (b.f.get(var) if isinstance(b, SEn) else None)
                if fa and fb: conj.append(z3.Implies(is_var(a, var), z3.And(*[self.eq(st, fa[k], fb[k]) for k in fa])))
            return z3.And(*conj)
        raise Unsup('equality on %r' % (a,))
    def e_Assign(self, st, e, fr):
        def f(s, v):
            if e['l']['k'] in ('Var',):
                try: c = self.lookup(s, fr, e['l']['v'])
                except Unsup: c = (fr.id, e['l']['v'])
                s.store[c] = v
                return [(s, UNIT)]
            return self.bind(self.place(s, e['l'], fr), lambda s2, r: [(s2, (self.write(s2, r, v), UNIT)[1])])
        return self.bind(self.ev(st, e['r'], fr), f)
    def e_AssignOp(self, st, e, fr):
        op = e['op'].replace('Assign', '')
        def f(s, v):
            def g(s2, r):
                cur = self.read(s2, r)
                return self.bind(self.binop(s2, op, cur, v, e['sp']), lambda s3, x: [(s3, (self.write(s3, r, x), UNIT)[1])])
            return self.bind(self.place(s, e['l'], fr), g)
        return self.bind(self.ev(st, e['r'], fr), f)
    def e_Cast(self, st, e, fr):
        def f(s, v):
            t = e['ty']
            if t['k'] != 'prim': return [(s, v)]
            return [(s, self.cast(s, v, t['n']))]
        return self.bind(self.ev(st, e['e'], fr), f)
    def cast(self, st, v, to):
        if v.ty == to: return v
        if v.ty in INTS and to in INTS:
            lo, hi = INTS[to]; l0, h0 = INTS[v.ty]
            if lo <= l0 and h0 <= hi: return Sc(v.z, to)
            r = fresh('cast', I)
            st.assume(z3.And(r >= lo, r <= hi, z3.Implies(z3.And(v.z >= lo, v.z <= hi), r == v.z)))
            return Sc(r, to)
        if v.ty in INTS and to == 'f32': return Sc(T.i2f(v.z), 'f32')
        if v.ty == 'f32' and to in INTS:
            r = T.f2i(v.z, to); self.range_fact(st, r, to)
            return Sc(r, to)
        if v.ty == 'bool' and to in INTS: return Sc(z3.If(v.z, 1, 0), to)
        if v.ty == 'f32' and to == 'f64': return Sc(T.f2d(v.z), 'f64')
        if v.ty == 'f64' and to == 'f32': return Sc(T.d2f(v.z), 'f32')
        if v.ty in INTS and to == 'f64': return Sc(T.i2d(v.z), 'f64')
        if v.ty == 'f64' and to in INTS:
            r = T.d2i(v.z); self.range_fact(st, r, to)
            return Sc(r, to)
        raise Unsup('cast %s to %s' % (v.ty, to))
    def e_Return(self, st, e, fr):
        if e['e'] is None: return [(st, Abr('return', fr.id, UNIT))]
        return self.bind(self.ev(st, e['e'], fr), lambda s, v: [(s, Abr('return', self.fnframe(fr), v))])
    def fnframe(self, fr): return fr.id
    def e_Break(self, st, e, fr):
        if e['e'] is None: return [(st, Abr('break', e['l'], UNIT))]
        return self.bind(self.ev(st, e['e'], fr), lambda s, v: [(s, Abr('break', e['l'], v))])
    def e_Continue(self, st, e, fr): return [(st, Abr('continue', e['l']))]
    def e_Loop(self, st, e, fr):
        lab = 'Node(%s)' % e['id']
        def body(s):
            out = []
            for t, v in self.ev(s, e['body'], fr):
                if isinstance(v, Abr):
                    if v.kind == 'break' and v.label == lab: out.append((t, 'exit', v.val))
                    elif v.kind == 'continue' and v.label == lab: out.append((t, 'next', None))
                    else: out.append((t, 'exit', v))
                else: out.append((t, 'next', None))
            return out
        return self.loop(st, body, '%s#%s' % (fr.fn, self.loopno(e)), fr, measured=False)
    def loopno(self, e): return e['sp'].split(':')[-1] + '.' + str(e['id'])

    # -------------------------------------------------------------- loops
    def loop(self, st, body, key, fr, measured=True):
        """Cut a loop: body(state) -> [(state, 'next'|'exit', value)]; returns [(state, value)] of the exits."""
        # 1. modified leaves
        mods = {c: set(v) for c, v in self.mods.get(key, {}).items() if c in st.store}
        ex = {}
        self.depth += 1
        if self.depth > 6: raise Unsup('loop nesting')
        self.mute += 1
        try:
            for it in range(12):
                if it == 11: raise Unsup('loop shape does not stabilise')
                base = st.fork()
                for c, g in ex.items(): base.store[c] = coerce(base.store[c], g)
                head, comps = self.head(base, mods)
                n0 = ctr()
                changed = False
                rs = body(head.fork())
                for s, kind, _ in rs:
                    if kind != 'next': continue
                    for c in list(head.store):
                        if c not in s.store: continue
                        a, b = head.store[c], s.store[c]
                        if a is b: continue
                        if not same(a, b):
                            g = gen(a, b)
                            if c not in ex or not same(ex[c], g):
                                ex[c] = g; changed = True
                                mods.setdefault(c, set())
                            a2, b2 = coerce(a, g), coerce(b, g)
                        else: a2, b2 = a, b
                        for (nm, za, _), (_, zb, _) in zip(lwalk(a2), lwalk(b2)):
                            if not za.eq(zb) and not z3.simplify(za).eq(z3.simplify(zb)) and nm not in mods.get(c, ()):
                                mods.setdefault(c, set()).add(nm); changed = True
                if not changed: break
        finally:
            self.mute -= 1
            self.depth -= 1
        self.mods[key] = mods
        D = infer.Deriver(self, base, head, comps, rs, n0)
        # 2. cut
        entry = base
        nohead = len(comps) == 0
        dropped = self.cands.setdefault(key, set())
        if not any(kind == 'next' for _, kind, _ in rs):        # the body never repeats
            return [(s, v) for s, kind, v in body(base.fork()) if kind != 'next'] if not self.mute else [(s, v) for s, kind, v in body(base.fork())]
        head, comps2 = self.head(base, mods)
        tmpl = self.C.templates(self)
        z0 = D.z0
        def view(s):
            cs = []
            for (c, lab, nm, ty, _) in comps:
                v = s.store[c] if same(s.store[c], head.store[c]) else coerce(s.store[c], head.store[c])
                cs.append(infer.leafmap(v)[nm])
            return cs
        class L: pass
        def cands(s, zs):
            l = L()
            l.eng, l.st, l.key, l.D = self, s, key, D
            l.closed = {(comps[n][0], comps[n][2]) for n in D.closed}
            l.comps = [dict(lab=lab, nm=nm, ty=ty, z=z, z0=zz, cell=c) for (c, lab, nm, ty, _), z, zz in zip(comps, zs, z0)]
            l.entry = entry
            return [(k, f) for k, f in D.cands(zs) + T.generic_candidates(l) + tmpl(l) if k not in dropped]
        real = not self.mute
        ce = cands(entry, z0)
        zh = view(head)
        ch = dict(cands(head, zh))
        if real:
            for k, f in ce:
                if k in ch: self.soft.append((key, k, Oblig(entry.pc, f, 'loop invariant %s holds on entry' % k, (), 'inv', key)))
        for k, f in ch.items(): head.assume(f)
        if real: self.loops_seen[key] = sorted(ch)
        exits = []
        m0 = self.measures(head, comps2) if not measured and real else None
        backs = []
        for s, kind, v in body(head.fork()):
            if kind == 'next':
                backs.append(s)
                if not real: continue
                self.frame_check(head, s, mods, key)
                zs = view(s)
                for k, f in cands(s, zs):
                    if k in ch: self.soft.append((key, k, Oblig(s.pc, f, 'loop invariant %s is preserved' % k, (), 'inv', key)))
            else: exits.append((s, v))
        if m0 is not None and backs:
            self.termination(head, m0, backs, key)
        # 3. summaries at the exits: replace head symbols by closed forms that were established
        Lt = D.least() if 'd:least' not in dropped and (D.ran() is None or all(k not in dropped for k in dict(ce) if k.startswith('d:ran')) and not any(k.startswith('d:ran') for k in dropped)) else None
        K = D.k_of(zh[D.pri]) if D.pri is not None else None
        out = []
        for s, v in exits:
            subs = []
            if Lt is not None:
                if real: self.soft.append((key, 'd:least', Oblig(s.pc, z3.Not(D.ran()[0](K)) if T.is_least(Lt) else K == Lt, 'the exit of the search is decided by its condition', (), 'inv', key)))
                s.assume(K == Lt)
                subs.append((zh[D.pri], z3.simplify(D.z0[D.pri] + D.cnt[D.pri] * Lt)))
            for n, g in D.closed.items():
                if n == D.pri: continue
                if 'd:closed:%s%s' % (comps[n][1], comps[n][2]) in ch:
                    t = g(K if Lt is None else Lt)
                    s.assume(zh[n] == t)
                    subs.append((zh[n], t))
            if subs:
                sub1 = lambda x: rebuild(x, [z3.simplify(z3.substitute(z, *subs)) if not z3.is_const(z) or any(z.eq(a) for a, _ in subs) else z for z in leaves(x)])
                for c in list(s.store):
                    x = s.store[c]
                    if isinstance(x, (Clo, Fn)): continue
                    s.store[c] = sub1(x)
                if isinstance(v, Abr) and v.val is not None: v = Abr(v.kind, v.label, sub1(v.val))
                elif isinstance(v, V) and not isinstance(v, (Abr, Clo, Fn)): v = sub1(v)
            # vectors whose every valid position has a closed content
            D.cur = zh
            Kx = Lt if Lt is not None else K
            for n in getattr(D, 'content', {}):
                c, lab, nm, ty, _ = comps[n]
                if D.content[n][0] not in ch or c not in s.store: continue
                def retab(x):
                    if isinstance(x, St): return St(x.name, {k: retab(y) for k, y in x.f.items()})
                    if isinstance(x, Vc) and any(self.has_leaf(a, zh[n]) for a in x.arrs):
                        arrs = []
                        for a in x.arrs:
                            t = D.tabulate(n, a, x.n, z3.simplify(Kx)) if self.has_leaf(a, zh[n]) else None
                            arrs.append(a if t is None else t)
                        return Vc(x.n, x.tmpl, arrs)
                    return x
                s.store[c] = retab(s.store[c])
            out.append((s, v))
        return out
    def has_leaf(self, a, z):
        while z3.is_store(a): a = a.arg(0)
        return a.eq(z)
    def frame_check(self, head, s, mods, key):
        """Everything outside the havocked leaves is unchanged on the back edge."""
        for c in head.store:
            if c not in s.store: continue
            a, b = head.store[c], s.store[c]
            if a is b: continue
            if not same(a, b):
                if c not in mods: raise Unsup('loop modifies more than expected')
                b = coerce(b, a)
            for (nm, za, _), (_, zb, _) in zip(lwalk(a), lwalk(b)):
                if not za.eq(zb) and nm not in mods.get(c, ()) and not z3.simplify(za).eq(z3.simplify(zb)): raise Unsup('loop modifies more than expected')
    def head(self, st, mods):
        h = State(dict(st.store), st.pc)
        comps = []
        for c in st.store:
            if c not in mods: continue
            v = st.store[c]
            names = mods.get(c, set())
            ls = []
            lab = self.label(c)
            for nm, z, ty in lwalk(v):
                if nm in names:
                    f = fresh('h_' + lab + nm.replace('.', '_'), z.sort())
                    ls.append(f)
                    comps.append((c, lab, nm, ty, f))
                    if ty in INTS or ty in ('len', 'idx'): self.range_fact(h, f, ty)
                    if ty == 'tag': h.assume(z3.And(f >= 0, f <= 8))
                else: ls.append(z)
            h.store[c] = rebuild(v, ls)
        return h, comps
    def label(self, c):
        if isinstance(c[0], str): return c[0]
        return 'v' + c[1]
    def measures(self, head, comps):
        """Candidate termination measures as functions of a state."""
        ints = [(c, nm) for (c, lab, nm, ty, f) in comps if ty in INTS or ty in ('len', 'idx')]
        def get(s, c, nm):
            for n2, z, _ in lwalk(s.store[c]):
                if n2 == nm: return z
        out = []
        for c, nm in ints:
            out.append(lambda s, c=c, nm=nm: get(s, c, nm))
        # bounds: any unmodified integer leaf reachable, and lengths
        bounds = []
        seen = set()
        mod = {(c, nm) for c, nm in ints}
        for c, v in head.store.items():
            if not isinstance(v, (Sc, St, Sl, Vc, Ref)): continue
            try:
                for nm, z, ty in lwalk(v):
                    if (ty in ('usize', 'len', 'idx') and (c, nm) not in mod) and z.hash() not in seen and len(bounds) < 24:
                        seen.add(z.hash()); bounds.append(z)
            except Unsup: pass
        for b in bounds:
            for c, nm in ints: out.append(lambda s, c=c, nm=nm, b=b: b - get(s, c, nm))
        for c, nm in ints:
            for c2, nm2 in ints:
                if (c, nm) != (c2, nm2): out.append(lambda s, a=(c, nm), b=(c2, nm2): get(s, *a) - get(s, *b))
        return out
    def termination(self, head, ms, backs, key):
        good = None
        first = None
        for m in ms:
            try:
                z = m(head)
                goals = [(s, m(s)) for s in backs]
            except Unsup: continue
            if any(g is None for _, g in goals) or z is None: continue
            if first is None: first = (z, goals)
            okk = True
            for s, g in goals:
                sol = z3.Solver(); sol.set('timeout', 300)
                for f in s.facts():
                    if not T.has_quant(f): sol.add(f)
                sol.add(z3.Not(z3.And(g < z, g >= -(2**70) if False else z >= 0)))
                if sol.check() != z3.unsat: okk = False; break
            if okk: good = (z, goals); break
        if good is None:
            if first is None: good = None
            else: good = first
        for s in backs:
            if good is None: goal = z3.BoolVal(False)
            else:
                g = [x for t, x in good[1] if t is s][0]
                goal = z3.And(g < good[0], good[0] >= 0)
            self.obs.append(Oblig(s.pc, goal, 'loop terminates (measure decreases)', ('C22',), 'term', key))

    # -------------------------------------------------------------- calls
    def e_Call(self, st, e, fr):
        f = e['f']
        if f is None:
            def g(s, vs):
                return self.call_value(s, vs[0], vs[1:], fr, e)
            return self.bind(self.evs(st, [e['fe']] + e['args'], fr), g)
        def g(s, vs): return self.call(s, f, vs, fr, e)
        return self.bind(self.evs(st, e['args'], fr), g)
    def call_value(self, st, fv, args, fr, e=None):
        """Call a closure, function item or opaque function value."""
        fv = self.deref(st, fv)
        if isinstance(fv, Clo): return self.call_closure(st, fv, args, e)
        if isinstance(fv, Fn):
            return self.call(st, fv.f, args, self.frame(None, fv.tenv, 'fnitem'), e or {'ty': None, 'sp': ''})
        if isinstance(fv, St) and fv.name == 'ctor': 
            return [(st, fv.f['mk'](args))]
        if isinstance(fv, Sc) and fv.ty.startswith('opq'):
            return self.models.call_opaque(self, st, fv, args, fr, e)
        raise Unsup('call of %r' % (fv,))
    def call_closure(self, st, clo, args, e=None):
        self.tick()
        b = clo.node['body']
        pf = self.frames[clo.frame]
        fr = self.frame(pf, pf.tenv, pf.fn)
        ps = b['params'][1:]
        if len(ps) != len(args): raise Unsup('closure arity')
        rs = [(st, UNIT)]
        for p, a in zip(ps, args):
            def f(s, _, p=p, a=a):
                if p['pat'] is None: return [(s, UNIT)]
                r = a if isinstance(a, Sl) and p['pat']['k'] != 'Bind' else self.tmp(s, a, 'arg')
                return [(s2, UNIT) for s2, bb in self.match(s, r, p['pat'], fr) if bb]
            rs = self.bind(rs, f)
        out = []
        for s, v in self.bind(rs, lambda s, _: self.ev(s, b['value'], fr)):
            if isinstance(v, Abr) and v.kind == 'return' and v.label == fr.id: out.append((s, v.val))
            else: out.append((s, v))
        return self.merge(st, out) if len(out) == 2 else out
    def tenv_of(self, fn, f, fr):
        gens = fn['generics']
        args = f.get('rargs') if f.get('resolved') == fn['path'] and f.get('rargs') is not None else f['args']
        args = [self.sub(a, fr.tenv) for a in args if a.get('k') != 'const']
        if len(gens) == len(args): return dict(zip(gens, args))
        d = dict(zip(gens[::-1], args[::-1]))
        return d
    def call(self, st, f, args, fr, e):
        # 1. local function, statically resolved
        path = None
        if f.get('rlocal') and f.get('rkind') == 'item': path = f['resolved']
        elif f.get('local') and not f.get('trait'): path = f['p']
        if f.get('dk', '').startswith('Ctor'): return [(st, self.ctor(f, args))]
        if path is None and f.get('trait') and (f.get('local') or f.get('resolved') is None):
            path = self.dyn_resolve(st, f, args)
        if path and path in self.P.fns:
            return self.call_fn(st, path, f, args, fr, e)
        return self.models.call(self, st, f, args, fr, e)
    def ctor(self, f, args):
        p = f['p'].split('::')
        if f['dk'].startswith('Ctor(Variant'):
            return En(p[-2] if p[-2] in VARS else re.sub(r'<.*', '', p[-2]), p[-1], {str(i): a for i, a in enumerate(args)})
        return St(p[-1], {str(i): a for i, a in enumerate(args)})
    def dyn_resolve(self, st, f, args):
        """Trait method on a value whose concrete type is known from the value."""
        if not args: return None
        v = self.deref(st, args[0])
        if isinstance(v, Clo): return None
        nm = self.tyname(v)
        a = self.P.byname.get(nm)
        if a is None: return None
        for im in self.P.impls:
            if im['trait'] == f['trait'] and im['self'].get('k') == 'adt' and im['self']['p'] == a['path']:
                for it in im['items']:
                    if lastp(it) == f['name']: return it
                d = f['trait'] + '::' + f['name']
                if d in self.P.fns and self.P.fns[d]['body']: return d
        return None
    def call_fn(self, st, path, f, args, fr, e):
        con = self.C.get(path)
        if con is not None and con.callable and path != self.root:
            self.fns_used.add(path); self.cons_used.add(path)
            return con.apply(self, st, args, e)
        fn = self.P.fns[path]
        if fn['body'] is None: raise Unsup('no body for ' + path)
        self.fns_used.add(path)
        return self.inline(st, fn, args, self.tenv_of(fn, f, fr))
    def inline(self, st, fn, args, tenv):
        self.indepth = getattr(self, 'indepth', 0) + 1
        if self.indepth > 25: raise Unsup('recursion in ' + fn['path'])
        try:
            fr = self.frame(None, tenv, fn['path'])
            rs = [(st, UNIT)]
            ps = fn['body']['params']
            if len(ps) != len(args): raise Unsup('arity of ' + fn['path'])
            for p, a in zip(ps, args):
                def f(s, _, p=p, a=a):
                    if p['pat'] is None: return [(s, UNIT)]
                    if p['pat']['k'] == 'Bind' and p['pat']['by'] == 'val':
                        s.store[(fr.id, p['pat']['v'])] = a
                        return [(s, UNIT)]
                    return [(s2, UNIT) for s2, b in self.match(s, self.tmp(s, a, 'arg'), p['pat'], fr) if b]
                rs = self.bind(rs, f)
            out = []
            for s, v in self.bind(rs, lambda s, _: self.ev(s, fn['body']['value'], fr)):
                if isinstance(v, Abr):
                    if v.kind == 'return' and v.label == fr.id: out.append((s, v.val))
                    else: raise Unsup('stray %s out of %s' % (v.kind, fn['path']))
                else: out.append((s, v))
            return self.merge(st, out) if len(out) == 2 else out
        finally: self.indepth -= 1
