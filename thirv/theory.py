"""Logical theory: floats as an uninterpreted sort with an order key, strings, recursive specification functions,
generic loop-invariant candidates, and the query builder."""
import re, struct
import z3
from values import *
import values

Fn1 = lambda n, a, r: z3.Function(n, *(a + [r]))
isnan = z3.Function('isnan', F, B)
key = z3.Function('key', F, I)        # order of non-NaN values; +0 and -0 share key 0
tkey = z3.Function('tkey', F, I)      # IEEE total order
KINF = 0x7f800000
_fadd = z3.Function('fadd', F, F, F); _fsub = z3.Function('fsub', F, F, F); _fmul = z3.Function('fmul', F, F, F)
_fdiv = z3.Function('fdiv', F, F, F); _frem = z3.Function('frem', F, F, F)
_fneg = z3.Function('fneg', F, F); _fabs = z3.Function('fabs', F, F)
_i2f = z3.Function('i2f', I, F)
UNF = {n: z3.Function('f' + n, F, F) for n in ('exp', 'ln', 'log2', 'log10', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'exp2', 'exp_m1', 'ln_1p', 'recip', 'sin', 'cos', 'tanh', 'signum')}
BIF = {n: z3.Function('f' + n, F, F, F) for n in ('powf', 'atan2', 'copysign', 'hypot', 'log')}
_powi = z3.Function('fpowi', F, I, F)
_f2i = {t: z3.Function('f2i_' + t, F, I) for t in INTS}
f2d = z3.Function('f2d', F, D); d2f = z3.Function('d2f', D, F); i2d = z3.Function('i2d', I, D); d2i = z3.Function('d2i', D, I)
dneg = z3.Function('dneg', D, D)
DOP = {n: z3.Function('d' + n.lower(), D, D, D) for n in ('Add', 'Sub', 'Mul', 'Div', 'Rem')}
dlt = z3.Function('dlt', D, D, B); deq = z3.Function('deq', D, D, B)
DCMP = {'Lt': lambda a, b: dlt(a, b), 'Gt': lambda a, b: dlt(b, a), 'Eq': lambda a, b: deq(a, b), 'Ne': lambda a, b: z3.Not(deq(a, b)),
        'Le': lambda a, b: z3.Or(dlt(a, b), deq(a, b)), 'Ge': lambda a, b: z3.Or(dlt(b, a), deq(a, b))}

def key_of_bits(b):
    m = b & 0x7fffffff
    return -m if b >> 31 else m
def tkey_of_bits(b):
    return -(b & 0x7fffffff) - 1 if b >> 31 else b
def isnan_bits(b): return (b & 0x7fffffff) > KINF

def _fold(op, a, b):
    x, y = fbits(a), fbits(b)
    if x is None or y is None or isnan_bits(x) or isnan_bits(y): return None
    x, y = bits2f(x), bits2f(y)
    try:
        r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y}[op]()
    except (ZeroDivisionError, KeyError): return None
    if r != r: return None
    return fconst(r)
def mkop(op, f):
    def g(a, b):
        r = _fold(op, a, b)
        return r if r is not None else f(a, b)
    return g
fadd, fsub, fmul, fdiv = mkop('Add', _fadd), mkop('Sub', _fsub), mkop('Mul', _fmul), mkop('Div', _fdiv)
FOP = {'Add': fadd, 'Sub': fsub, 'Mul': fmul, 'Div': fdiv, 'Rem': mkop('Rem', _frem)}
def nn(x):
    b = fbits(x)
    if b is not None: return z3.BoolVal(not isnan_bits(b))
    return z3.Not(isnan(x))
def isnanf(x): return z3.Not(nn(x)) if fbits(x) is None else z3.BoolVal(isnan_bits(fbits(x)))
def K(x):
    b = fbits(x)
    if b is not None and not isnan_bits(b): return z3.IntVal(key_of_bits(b))
    return key(x)
def TK(x):
    b = fbits(x)
    if b is not None: return z3.IntVal(tkey_of_bits(b))
    return tkey(x)
def flt(a, b): return z3.And(nn(a), nn(b), K(a) < K(b))
def fle(a, b): return z3.And(nn(a), nn(b), K(a) <= K(b))
def feq(a, b): return z3.And(nn(a), nn(b), K(a) == K(b))
FCMP = {'Lt': flt, 'Le': fle, 'Gt': lambda a, b: flt(b, a), 'Ge': lambda a, b: fle(b, a), 'Eq': feq, 'Ne': lambda a, b: z3.Not(feq(a, b))}
def finite(x): return z3.And(nn(x), K(x) > -KINF, K(x) < KINF)
def fneg(x):
    b = fbits(x)
    if b is not None: return fconst(-bits2f(b)) if not isnan_bits(b) else _fneg(x)
    return _fneg(x)
def fabs(x): return _fabs(x)
def i2f(z):
    z = z3.simplify(z)
    if z3.is_int_value(z): return fconst(float(z.as_long()))
    return _i2f(z)
def f2i(x, ty='usize'): return _f2i[ty](x)
def dsc(x): return dconst(x)

starts_with = z3.Function('starts_with', STR, STR, B)
def streq(a, b):
    x, y = slit(a), slit(b)
    if x is not None and y is not None: return z3.BoolVal(x == y)
    return a == b
def strpre(a, b):
    x, y = slit(a), slit(b)
    if x is not None and y is not None: return z3.BoolVal(x.startswith(y))
    if y == '': return z3.BoolVal(True)
    return starts_with(a, b)
trim = z3.Function('trim', STR, STR)
strempty = lambda a: streq(a, sconst(''))
def strim(a):
    x = slit(a)
    if x is not None: return sconst(x.strip())
    if z3.is_app(a) and a.decl().eq(trim): return a
    return trim(a)

# ------------------------------------------------------------------ quantifiers
def FA(vs, body, pats=()):
    if not isinstance(vs, (list, tuple)): vs = [vs]
    ps = []
    for p in pats:
        ps.append(z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p)
    return z3.ForAll(list(vs), body, patterns=ps, qid=qid(body))
QN = {}
def qid(body):
    n = 'fa%d' % len(QN); QN[n] = body
    return n
_bv = [0]
def iv_(n='j'):
    return z3.Int(n)
_hq = {}
def has_quant(f):
    k = f.get_id()
    r = _hq.get(k)
    if r is not None: return r[1]
    if z3.is_quantifier(f): v = True
    elif z3.is_app(f): v = any(has_quant(c) for c in f.children())
    else: v = False
    _hq[k] = (f, v)
    return v

_sy = {}
def symbols(f):
    """Names of declarations used, with the ground applications of recursive functions."""
    k = f.get_id()
    r = _sy.get(k)
    if r is not None: return r[1]
    out = set()
    if z3.is_quantifier(f): out |= symbols(f.body())
    elif z3.is_app(f):
        d = f.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
        for c in f.children(): out |= symbols(c)
    _sy[k] = (f, out)
    return out

# ------------------------------------------------------------------ recursive specification functions
REC = {}     # name -> (decl, unfold function)
def rec(name, sorts, res, base, step):
    """f(args.., k): base(args) for k <= 0, step(args, k-1, f(args, k-1)) otherwise."""
    d = z3.Function(name, *(sorts + [I, res]))
    def unfold(*a):
        args, k = list(a[:-1]), a[-1]
        km = z3.simplify(k - 1)
        return d(*a) == z3.If(k <= 0, base(*args), step(*(args + [km, d(*(args + [km]))])))
    REC[name] = (d, unfold)
    return d

_gr = {}
def _gapps(f):
    k = f.get_id()
    r = _gr.get(k)
    if r is None:
        out = {}; closed = True
        if z3.is_var(f): closed = False
        elif z3.is_quantifier(f):
            o, c = _gapps(f.body())
            out.update(o); closed = c
        elif z3.is_app(f):
            for ch in f.children():
                o, c = _gapps(ch)
                out.update(o); closed = closed and c
            nm = f.decl().name()
            if closed and f.num_args() > 0 and (nm in REC or nm in LEAST): out[f.get_id()] = f
        r = (f, out, closed)
        _gr[k] = r
    return r[1], r[2]
def ground_apps(f, names):
    """Ground applications of functions in names (outside quantifiers, or without bound variables)."""
    o, c = _gapps(f)
    return {i: a for i, a in o.items() if a.decl().name() in names}, c

def unfoldings(fs, rounds=2):
    names = set(REC)
    seen = {}; out = []
    cur = list(fs)
    for _ in range(rounds):
        apps = {}
        for f in cur:
            if symbols(f) & names: apps.update(ground_apps(f, names)[0])
        new = []
        for i, a in apps.items():
            if i in seen: continue
            seen[i] = a
            ax = REC[a.decl().name()][1](*a.children())
            out.append(ax); new.append(ax)
        cur = new
        if not new: break
    return out

# ------------------------------------------------------------------ axioms
x, y, w = z3.Consts('ax_x ax_y ax_w', F)
n_ = z3.Int('ax_n'); m_ = z3.Int('ax_m')
ONE = key_of_bits(0x3f800000)
inf = lambda t: z3.And(nn(t), z3.Or(key(t) == KINF, key(t) == -KINF))
AX = []   # (name, needed symbols, formula, how validated)
def ax(name, need, f, why):
    if z3.is_quantifier(f):
        vs = [z3.Const(f.var_name(i), f.var_sort(i)) for i in range(f.num_vars())]
        sub = lambda t: z3.substitute_vars(t, *reversed(vs))
        pats = [sub_pat(f.pattern(i), sub) for i in range(f.num_patterns())]
        f = z3.ForAll(vs, sub(f.body()), patterns=pats, qid='ax_' + name.replace('-', '_'))
    AX.append((name, set(need), f, why))
def sub_pat(p, sub):
    l = [sub(c) for c in p.children()]
    return z3.MultiPattern(*l)
ax('key-range', ['key'], FA(x, z3.And(key(x) <= KINF, key(x) >= -KINF), [key(x)]), 'definition')
ax('neg', ['fneg'], FA(x, z3.And(isnan(_fneg(x)) == isnan(x), z3.Implies(nn(x), key(_fneg(x)) == -key(x))), [_fneg(x)]), 'IEEE 754; enumerated')
ax('abs', ['fabs'], FA(x, z3.And(isnan(_fabs(x)) == isnan(x), z3.Implies(nn(x), key(_fabs(x)) == z3.If(key(x) >= 0, key(x), -key(x)))), [_fabs(x)]), 'IEEE 754; enumerated')
ax('add-comm', ['fadd'], FA([x, y], _fadd(x, y) == _fadd(y, x), [_fadd(x, y)]), 'IEEE 754; SMT FP')
ax('mul-comm', ['fmul'], FA([x, y], _fmul(x, y) == _fmul(y, x), [_fmul(x, y)]), 'IEEE 754; SMT FP')
ax('add-nan', ['fadd'], FA([x, y], z3.Implies(z3.Or(isnan(x), isnan(y)), isnan(_fadd(x, y))), [_fadd(x, y)]), 'IEEE 754; SMT FP')
ax('add-nonneg', ['fadd'], FA([x, y], z3.Implies(z3.And(nn(x), nn(y), key(x) >= 0, key(y) >= 0),
    z3.And(nn(_fadd(x, y)), key(_fadd(x, y)) >= key(x), key(_fadd(x, y)) >= key(y))), [_fadd(x, y)]), 'IEEE 754; SMT FP')
ax('add-sat', ['fadd'], FA([x, y], z3.Implies(z3.And(nn(x), nn(y), key(x) >= 0, key(x) <= key_of_bits(0x4b800000), key(y) >= 0, key(y) <= ONE),
    z3.And(nn(_fadd(x, y)), key(_fadd(x, y)) <= key_of_bits(0x4b800000))), [_fadd(x, y)]), 'IEEE 754: adding at most 1 to at most 2^24 rounds to at most 2^24; SMT FP')
ax('sub-nan', ['fsub'], FA([x, y], isnan(_fsub(x, y)) == z3.Or(isnan(x), isnan(y), z3.And(key(x) == key(y), inf(x))), [_fsub(x, y)]), 'IEEE 754; SMT FP')
ax('sub-sign', ['fsub'], FA([x, y], z3.Implies(nn(_fsub(x, y)), z3.And((key(_fsub(x, y)) <= 0) == (key(x) <= key(y)), (key(_fsub(x, y)) >= 0) == (key(x) >= key(y)))), [_fsub(x, y)]), 'IEEE 754; SMT FP')
ax('sub-mono', ['fsub'], FA([x, y, w], z3.Implies(z3.And(nn(_fsub(x, w)), nn(_fsub(y, w)), key(x) <= key(y)), key(_fsub(x, w)) <= key(_fsub(y, w))), [(_fsub(x, w), _fsub(y, w))]), 'IEEE 754; SMT FP')
fexp = UNF['exp']
ax('exp-range', ['fexp'], FA(x, z3.And(isnan(fexp(x)) == isnan(x), z3.Implies(nn(x), z3.And(key(fexp(x)) >= 0,
    z3.Implies(key(x) <= 0, key(fexp(x)) <= ONE), z3.Implies(key(x) == 0, key(fexp(x)) == ONE)))), [fexp(x)]), 'enumerated over all f32')
ax('exp-mono', ['fexp'], FA([x, y], z3.Implies(z3.And(nn(x), nn(y), key(x) <= key(y)), key(fexp(x)) <= key(fexp(y))), [(fexp(x), fexp(y))]), 'enumerated over all f32')
ax('div-nan', ['fdiv'], FA([x, y], isnan(_fdiv(x, y)) == z3.Or(isnan(x), isnan(y), z3.And(key(x) == 0, key(y) == 0), z3.And(inf(x), inf(y))), [_fdiv(x, y)]), 'IEEE 754; SMT FP')
ax('div-sign', ['fdiv'], FA([x, y], z3.Implies(z3.And(nn(_fdiv(x, y)), key(x) >= 0, key(y) > 0), key(_fdiv(x, y)) >= 0), [_fdiv(x, y)]), 'IEEE 754; SMT FP')
ax('div-le1', ['fdiv'], FA([x, y], z3.Implies(z3.And(nn(_fdiv(x, y)), key(x) >= 0, key(y) > 0, key(x) <= key(y)), key(_fdiv(x, y)) <= ONE), [_fdiv(x, y)]), 'IEEE 754; SMT FP')
ax('div-mono', ['fdiv'], FA([x, y, w], z3.Implies(z3.And(nn(_fdiv(x, w)), nn(_fdiv(y, w)), key(w) > 0, key(x) <= key(y)), key(_fdiv(x, w)) <= key(_fdiv(y, w))), [(_fdiv(x, w), _fdiv(y, w))]), 'IEEE 754; SMT FP')
ax('div-pos', ['fdiv'], FA([x, y], z3.Implies(z3.And(nn(_fdiv(x, y)), key(x) > 0, key(y) > 0, key(x) >= ONE, key(y) < KINF), key(_fdiv(x, y)) > 0), [_fdiv(x, y)]), 'IEEE 754; SMT FP')
ax('tkey', ['tkey'], FA([x, y], z3.And(z3.Implies(z3.And(nn(x), nn(y), key(x) < key(y)), tkey(x) < tkey(y)), (tkey(x) == tkey(y)) == (x == y)), [(tkey(x), tkey(y))]), 'definition of total_cmp')
ax('i2f', ['i2f'], FA(n_, z3.And(nn(_i2f(n_)), z3.Implies(n_ > 0, key(_i2f(n_)) >= ONE), z3.Implies(n_ == 0, key(_i2f(n_)) == 0)), [_i2f(n_)]), 'definition of the conversion')
for t in INTS:
    lo, hi = INTS[t]
    ax('f2i-' + t, ['f2i_' + t], FA(x, z3.And(_f2i[t](x) >= lo, _f2i[t](x) <= hi), [_f2i[t](x)]), 'saturating cast')

def ground_facts(fs):
    """Facts about float literals occurring in fs (quantifier free)."""
    out = []
    done = set()
    for f in fs:
        for s in symbols(f):
            if s in FC and s not in done:
                done.add(s)
                b = FC[s]; c = z3.Const(s, F)
                out.append(isnan(c) == isnan_bits(b))
                if not isnan_bits(b): out.append(key(c) == key_of_bits(b))
                out.append(tkey(c) == tkey_of_bits(b))
    return out
def lit_facts(fs):
    names = set()
    for f in fs:
        for s in symbols(f):
            if s in SL: names.add(s)
    names = sorted(names)
    out = []
    if len(names) > 1: out.append(z3.Distinct(*[z3.Const(s, STR) for s in names]))
    for s in names: out.append(trim(z3.Const(s, STR)) == sconst(SL[s].strip()) if SL[s] == SL[s].strip() else z3.BoolVal(True))
    return out

EXTRA_AX = []   # contracts may add lemmas: (name, needed, formula, why)

# ------------------------------------------------------------------ generic invariants
def generic_candidates(l):
    out = []
    ints = [c for c in l.comps if c['ty'] in INTS or c['ty'] in ('len', 'idx')]
    closed = l.closed
    for c in l.comps:
        nm = c['lab'] + c['nm']
        if c['ty'] in INTS or c['ty'] in ('len', 'idx'):
            if (c['cell'], c['nm']) in closed: continue
            out.append(('g:%s>=entry' % nm, c['z'] >= c['z0']))
            out.append(('g:%s<=entry' % nm, c['z'] <= c['z0']))
            for b in ints:
                if b is c: continue
                q = b['lab'] + b['nm']
                out.append(('g:d%s<=d%s' % (nm, q), c['z'] - c['z0'] <= b['z'] - b['z0']))
                out.append(('g:%s<=%s' % (nm, q), c['z'] <= b['z']))
                out.append(('g:%s>=%s' % (nm, q), c['z'] >= b['z']))
                out.append(('g:%s+%s const' % (nm, q), c['z'] + b['z'] == c['z0'] + b['z0']))
        elif c['ty'] in ('bool', 'f32', 'tag', 'str', 'f64', 'ghost'):
            if (c['cell'], c['nm']) in closed: continue
            out.append(('g:%s=entry' % nm, c['z'] == c['z0']))
    # cursor bounds: siblings .lo/.hi of iterators
    for c in ints:
        if c['nm'].endswith('.lo'):
            v = l.st.store.get(c['cell'])
            hi = None
            for nm2, z, ty in lwalk(v):
                if nm2 == c['nm'][:-3] + '.hi': hi = z
            if hi is not None:
                out.append(('g:%s%s<=hi' % (c['lab'], c['nm']), z3.Or(c['z'] <= hi, c['z'] == c['z0'])))
    return out

# ------------------------------------------------------------------ canonical recurrences and searches
import hashlib
LEAST = {}   # name -> (decl, nparams, ran(params, i))
def is_lit(t):
    if z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t): return True
    return z3.is_const(t) and (t.decl().name() in FC or t.decl().name() in SL or t.decl().name() in DC)
def occurs(t, vs, memo):
    k = t.get_id()
    if k in memo: return memo[k]
    r = any(t.eq(v) for v in vs) or any(occurs(c, vs, memo) for c in t.children())
    memo[k] = r
    return r
def abstract(expr, vs):
    """Replace the maximal subterms of expr that contain none of vs by parameters."""
    expr = z3.simplify(expr, sort_store=True)
    params = []; memo = {}; done = {}
    def go(t):
        k = t.get_id()
        if k in done: return done[k]
        if any(t.eq(v) for v in vs): r = t
        elif is_lit(t): r = t
        elif not occurs(t, vs, memo):
            for i, p in enumerate(params):
                if p.eq(t): r = z3.Const('prm%d' % i, t.sort()); break
            else:
                params.append(t); r = z3.Const('prm%d' % (len(params) - 1), t.sort())
        elif z3.is_quantifier(t): raise Unsup('quantifier in recurrence')
        else:
            ch = [go(c) for c in t.children()]
            if z3.is_and(t) or z3.is_or(t): ch = sorted(ch, key=lambda c: c.sexpr())
            r = t.decl()(*ch)
        done[k] = r
        return r
    a = go(expr)
    return a, params
def hname(pre, e): return pre + hashlib.sha1(e.sexpr().encode()).hexdigest()[:10]
def canon(t, n):
    return z3.Const('cv_%s_%s' % (n, t), z3.IntSort() if n == 'i' else t)
def mkrec(step, a, i):
    """Recurrence x(0) = init, x(k+1) = step(x(k), k): a function (init, k) -> term."""
    ai, ii = z3.Const('cv_a', a.sort()), z3.Int('cv_i')
    step = expand(z3.substitute(step, (a, ai), (i, ii)))
    ab, params = abstract(step, [ai, ii])
    nm = hname('R_', ab)
    if nm not in REC:
        ps = [z3.Const('prm%d' % j, p.sort()) for j, p in enumerate(params)]
        d = z3.Function(nm, *([p.sort() for p in params] + [a.sort(), I, a.sort()]))
        def unfold(*args):
            pr, init, k = list(args[:-2]), args[-2], args[-1]
            km = z3.simplify(k - 1)
            prev = d(*(pr + [init, km]))
            body = z3.substitute(ab, *([(x, y) for x, y in zip(ps, pr)] + [(ai, prev), (ii, km)]))
            return d(*args) == z3.If(k <= 0, init, body)
        def stepf(args, k):
            pr, init = list(args[:-2]), args[-2]
            return z3.substitute(ab, *([(x, y) for x, y in zip(ps, pr)] + [(ai, d(*(pr + [init, k]))), (ii, k)]))
        REC[nm] = (d, unfold, stepf)
    d = REC[nm][0]
    return lambda init, k: d(*(params + [init, z3.simplify(k)]))
def conjs(e):
    if z3.is_and(e): return [y for c in e.children() for y in conjs(c)]
    return [e]
def bound_of(ran, i):
    """e such that ran(i) implies i < e (e free of i), found syntactically."""
    for c in conjs(ran):
        for f in (c, z3.simplify(c)):
            n = None
            if z3.is_not(f):
                g = f.arg(0)
                if z3.is_le(g): l, r, strict = g.arg(1), g.arg(0), True      # not(l' <= r') == r' < l'
                elif z3.is_ge(g): l, r, strict = g.arg(0), g.arg(1), True
                else: continue
                # l < r
            elif z3.is_lt(f): l, r, strict = f.arg(0), f.arg(1), True
            elif z3.is_gt(f): l, r, strict = f.arg(1), f.arg(0), True
            elif z3.is_le(f): l, r, strict = f.arg(0), f.arg(1), False
            elif z3.is_ge(f): l, r, strict = f.arg(1), f.arg(0), False
            else: continue
            d = z3.simplify(r - l + i, som=True)
            if not occurs(d, [i], {}): return d if strict else z3.simplify(d + 1)
    return None
def mkleast(ran, i):
    """The least i >= 0 at which ran fails; ran must bound i syntactically."""
    ii = z3.Int('cv_i')
    ran = z3.simplify(expand(z3.substitute(ran, (i, ii))))
    ab, params = abstract(ran, [ii])
    if bound_of(ab, ii) is None: return None
    nm = hname('L_', ab)
    if nm not in LEAST:
        ps = [z3.Const('prm%d' % j, p.sort()) for j, p in enumerate(params)]
        d = z3.Function(nm, *([p.sort() for p in params] + [I]))
        def rf(args, k): return z3.substitute(ab, *([(x, y) for x, y in zip(ps, args)] + [(ii, k)]))
        LEAST[nm] = (d, rf, bound_of(ab, ii), ps)
    d = LEAST[nm][0]
    return d(*params) if params else d()
# tabulated arrays: the content of a vector whose every element is a closed form of its position
TAB = {}     # name -> (decl, body over (params, cv_i), params)
def mktab(t, i):
    """An array A with A[i] = t for every i (used for vectors whose valid positions all have that content)."""
    ii = z3.Int('cv_i')
    ab, params = abstract(expand(z3.substitute(t, (i, ii))), [ii])
    nm = hname('T_', ab)
    if nm not in TAB:
        ps = [z3.Const('prm%d' % j, p.sort()) for j, p in enumerate(params)]
        TAB[nm] = (z3.Function(nm, *([p.sort() for p in params] + [z3.ArraySort(I, t.sort())])) if ps else z3.Const(nm, z3.ArraySort(I, t.sort())), ab, ps)
    d = TAB[nm][0]
    return d(*params) if params else d
def is_tab(a): return z3.is_app(a) and a.decl().name() in TAB
def tab_at(a, i):
    d, ab, ps = TAB[a.decl().name()]
    return z3.substitute(ab, *([(x, y) for x, y in zip(ps, a.children())] + [(z3.Int('cv_i'), i)]))
values.TABHOOK[0] = (is_tab, tab_at)
_exp = {}
def expand(e):
    """Reads of tabulated arrays replaced by their content."""
    if not TAB: return e
    k = e.get_id()
    if k in _exp: return _exp[k][1]
    r = e
    if z3.is_app(e) and e.num_args():
        ch = [expand(c) for c in e.children()]
        if z3.is_select(e) and is_tab(ch[0]): r = expand(tab_at(ch[0], ch[1]))
        elif any(not a.eq(b) for a, b in zip(ch, e.children())): r = z3.substitute(e, *[(b, a) for a, b in zip(ch, e.children()) if not a.eq(b)])
    _exp[k] = (e, r)
    return r
def tab_facts(fs):
    apps = {}; seen = set()
    def go(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_quantifier(t): go(t.body()); return
        if is_tab(t) and not has_var(t): apps[t.get_id()] = t
        for c in t.children(): go(c)
    for f in fs:
        if symbols(f) & set(TAB): go(f)
    out = []
    v = z3.Int('tj')
    for a in apps.values():
        out.append(FA(v, z3.Select(a, v) == tab_at(a, v), [z3.Select(a, v)]))
    return out
def has_var(t): return z3.is_var(t) or any(has_var(c) for c in t.children())
def is_least(t): return z3.is_app(t) and t.decl().name() in LEAST
def select_pats(body, v):
    """Select terms of body whose index is exactly the bound variable v."""
    out = []; seen = set()
    def go(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_quantifier(t): return
        for c in t.children(): go(c)
        if z3.is_select(t) and t.arg(1).eq(v) and not occurs(t.arg(0), [v], {}) and not has_ite(t.arg(0)) and not any(t.eq(o) for o in out): out.append(t)
    go(body)
    return out
def has_ite(t):
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY): return True
    return any(has_ite(c) for c in t.children())
def FAp(v, body, extra=()):
    ps = list(extra) + [p for p in select_pats(body, v) if not any(p.eq(q) for q in extra)]
    return z3.ForAll([v], body, patterns=ps, qid=qid(body)) if ps else z3.ForAll([v], body, qid=qid(body))
def least_facts(fs, have):
    """Ground facts about the applications of search functions in fs."""
    apps = {}
    for f in fs:
        if symbols(f) & set(LEAST): apps.update(ground_apps(f, set(LEAST))[0])
    out = []
    for a in apps.values():
        d, rf, b, ps = LEAST[a.decl().name()]
        args = a.children()
        bb = z3.substitute(b, *[(x, y) for x, y in zip(ps, args)]) if ps else b
        out.append(z3.And(a >= 0, z3.Or(a <= bb, a <= 0), z3.Not(rf(args, a))))
        v = z3.Int('lk')
        body = z3.Implies(z3.And(v >= 0, v < a), rf(args, v))
        out.append(FAp(v, body))
        for c in apps.values():
            if not c.eq(a): out.append(z3.Implies(z3.And(c >= 0, c < a), rf(args, c)))
    return out
_sk = [0]
def ext_facts(fs):
    """Two recurrences with the same start agree at k unless some step below k differs while they still agreed."""
    apps = {}
    for f in fs:
        if symbols(f) & set(REC): apps.update(ground_apps(f, set(REC))[0])
    l = [a for a in apps.values() if a.decl().name().startswith('R_')]
    out = []; n = 0
    for x in range(len(l)):
        for y in range(x + 1, len(l)):
            a, b = l[x], l[y]
            if a.sort() != b.sort(): continue
            if a.decl().eq(b.decl()) and all(p.eq(q) for p, q in zip(a.children()[:-1], b.children()[:-1])): continue
            d = z3.simplify(a.children()[-1] - b.children()[-1])
            if z3.is_int_value(d) and d.as_long() != 0: continue
            n += 1
            if n > 24: return out
            _sk[0] += 1
            m = z3.Int('extsk!%d' % _sk[0])
            k = a.children()[-1]
            fa, fb = REC[a.decl().name()][2], REC[b.decl().name()][2]
            ca, cb = a.children(), b.children()
            out.append(z3.Or(ca[-1] != cb[-1], ca[-2] != cb[-2], a == b,
                             z3.And(m >= 0, m < k, a.decl()(*(ca[:-1] + [m])) == b.decl()(*(cb[:-1] + [m])), fa(ca, m) != fb(cb, m))))
    return out

# permutations.  want(i) is true by definition; it marks the positions of the old list whose new position matters
# (the inverse direction is instantiated only there, which keeps instantiation finite).
want = z3.Function('want', I, B)
def perm_facts(pairs, p, q, n):
    """new[i] = old[p[i]] for the (new, old) pairs, with inverse q."""
    i = z3.Int('pi'); Se = z3.Select
    r = lambda k: z3.And(k >= 0, k < n)
    out = [FA(i, z3.Implies(r(i), z3.And(Se(p, i) >= 0, Se(p, i) < n, Se(q, Se(p, i)) == i)), [Se(p, i)])]
    for a, b in pairs:
        out.append(FA(i, z3.Implies(r(i), Se(a, i) == Se(b, Se(p, i))), [Se(a, i)]))
    out.append(FA(i, z3.Implies(r(i), z3.And(r(Se(q, i)), Se(p, Se(q, i)) == i, *[Se(a, Se(q, i)) == Se(b, i) for a, b in pairs])), [want(i)]))
    return out

# membership of an integer in a[lo .. lo+n)
_memb = z3.Function('memb', z3.ArraySort(I, I), I, I, I, B)
_mwit = z3.Function('memb_at', z3.ArraySort(I, I), I, I, I, I)
def memb(A, lo, n, x): return _memb(A, lo, n, x)
def memb_axioms():
    A = z3.Const('ax_A', z3.ArraySort(I, I)); lo, n, xx, p = z3.Ints('ax_lo ax_len ax_e ax_p')
    m, w = _memb(A, lo, n, xx), _mwit(A, lo, n, xx)
    return [('memb-def', ['memb'], FA([A, lo, n, xx], z3.Implies(m, z3.And(w >= lo, w < lo + n, z3.Select(A, w) == xx)), [m]), 'definition'),
            ('memb-in', ['memb'], FA([A, lo, n, xx, p], z3.Implies(z3.And(p >= lo, p < lo + n, z3.Select(A, p) == xx), m), [(m, z3.Select(A, p))]), 'definition')]
for t in memb_axioms(): ax(*t)

# ------------------------------------------------------------------ arrays as plain functions
# Queries replace the array theory by uninterpreted sorts with explicit read-over-write axioms: the solver's
# extensionality reasoning would otherwise compare every pair of arrays that occurs below a function symbol.
_sorts = {}; _agen = {}
def trsort(s):
    if s.kind() != z3.Z3_ARRAY_SORT: return s
    k = s.get_id()
    if k not in _sorts:
        r = trsort(s.range())
        t = z3.DeclareSort('Seq_' + re.sub(r'\W', '_', str(r)))
        get = z3.Function('get_' + str(t), t, I, r); put = z3.Function('put_' + str(t), t, I, r, t); con = z3.Function('const_' + str(t), r, t)
        a, i, v, j = z3.Const('ar_a', t), z3.Int('ar_i'), z3.Const('ar_v', r), z3.Int('ar_j')
        axs = [FA([a, i, v], get(put(a, i, v), i) == v, [put(a, i, v)]),
               FA([a, i, v, j], z3.Or(j == i, get(put(a, i, v), j) == get(a, j)), [get(put(a, i, v), j), (put(a, i, v), get(a, j))])]
        cax = [FA([v, j], get(con(v), j) == v, [get(con(v), j)])]
        _sorts[k] = (s, t, get, put, con, axs, cax)
    return _sorts[k][1]
_trd = {}
def trdecl(d):
    k = d.get_id()
    if k not in _trd:
        ds = [d.domain(i) for i in range(d.arity())]
        if d.kind() == z3.Z3_OP_UNINTERPRETED and (any(x.kind() == z3.Z3_ARRAY_SORT for x in ds) or d.range().kind() == z3.Z3_ARRAY_SORT):
            nd = z3.Function(d.name(), *([trsort(x) for x in ds] + [trsort(d.range())])) if ds else None
        else: nd = d
        _trd[k] = (d, nd)
    return _trd[k][1]
_trm = {}
def tr(f):
    k = f.get_id()
    r = _trm.get(k)
    if r is not None: return r[1]
    if z3.is_quantifier(f):
        vs = [z3.Const('%s' % f.var_name(i), f.var_sort(i)) for i in range(f.num_vars())]
        inst = lambda t: z3.substitute_vars(t, *reversed(vs))
        body = tr(inst(f.body()))
        nv = [z3.Const(v.decl().name(), trsort(v.sort())) for v in vs]
        pats = []
        for i in range(f.num_patterns()):
            pats.append(z3.MultiPattern(*[tr(inst(c)) for c in f.pattern(i).children()]))
        out = z3.Quantifier if False else (z3.ForAll if f.is_forall() else z3.Exists)
        out = out(nv, body, patterns=pats, qid=f.qid(), weight=f.weight()) if not has_arr(body) or True else None
    elif z3.is_app(f):
        ch = [tr(c) for c in f.children()]
        kd = f.decl().kind()
        if kd == z3.Z3_OP_SELECT: trsort(f.arg(0).sort()); out = _sorts[f.arg(0).sort().get_id()][2](*ch)
        elif kd == z3.Z3_OP_STORE: trsort(f.sort()); out = _sorts[f.sort().get_id()][3](*ch)
        elif kd == z3.Z3_OP_CONST_ARRAY: trsort(f.sort()); out = _sorts[f.sort().get_id()][4](*ch)
        elif z3.is_const(f) and f.sort().kind() == z3.Z3_ARRAY_SORT: out = z3.Const(f.decl().name(), trsort(f.sort()))
        elif kd == z3.Z3_OP_UNINTERPRETED: out = trdecl(f.decl())(*ch) if ch else f
        elif kd == z3.Z3_OP_EQ: out = ch[0] == ch[1]
        elif kd == z3.Z3_OP_ITE: out = z3.If(*ch)
        elif kd == z3.Z3_OP_DISTINCT: out = z3.Distinct(*ch)
        elif ch: out = f.decl()(*ch)
        else: out = f
    else: out = f
    _trm[k] = (f, out)
    return out
def has_arr(f): return False
def array_axioms(fs):
    sy = set()
    for f in fs: sy |= symbols(f)
    out = []
    for s, t, get, put, con, axs, cax in _sorts.values():
        if put.name() in sy: out += axs
        if con.name() in sy: out += cax
    return out

def skolem(goal):
    """Hypotheses and the core of a goal: strips implications and universal quantifiers."""
    hyps = []
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = []
            for i in range(goal.num_vars()):
                _sk[0] += 1
                vs.append(z3.Const('%s!s%d' % (goal.var_name(i), _sk[0]), goal.var_sort(i)))
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        elif z3.is_implies(goal):
            hyps.append(goal.arg(0)); goal = goal.arg(1)
        else: return hyps, goal
def query(hyps, goal, axs=True):
    """All formulas of the query hyps |- goal, with definitions and axioms."""
    h2, goal = skolem(goal)
    fs = list(hyps) + h2 + [z3.Not(goal)]
    fs += tab_facts(fs)
    lf = least_facts(fs, None); fs += lf
    e = ext_facts(fs); fs += e
    fs += unfoldings(fs, 2)
    fs += ground_facts(fs)
    sy = set()
    for f in fs: sy |= symbols(f)
    added = True; used = set()
    out = list(fs)
    while added:
        added = False
        for nme, need, f, why in AX + EXTRA_AX:
            if nme not in used and need <= sy and (axs or why == 'definition'):
                used.add(nme); out.append(f)
                new = symbols(f) - sy
                sy |= symbols(f); added = added or bool(new)
    out += lit_facts(out)
    out = [tr(f) for f in out]
    return out + array_axioms(out), used
