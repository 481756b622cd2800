"""Symbolic values of the THIR verification-condition generator."""
import struct
import z3

class Unsup(Exception):
    """The code uses a construct the generator has no rule for."""

F = z3.DeclareSort('F32')
D = z3.DeclareSort('F64')
STR = z3.DeclareSort('Str')
OPQ = z3.DeclareSort('Opaque')
I = z3.IntSort()
B = z3.BoolSort()

INTS = {'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1), 'usize': (0, 2**64-1),
        'u128': (0, 2**128-1), 'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1),
        'i64': (-2**63, 2**63-1), 'isize': (-2**63, 2**63-1), 'i128': (-2**127, 2**127-1)}
ISIZE_MAX = 2**63 - 1

def sort_of(ty):
    if ty in INTS: return I
    if ty == 'bool': return B
    if ty == 'f32': return F
    if ty == 'f64': return D
    if ty == 'str': return STR
    if ty == 'char': return I
    if ty == 'arrbool': return z3.ArraySort(I, B)
    if ty == 'ghost': return I
    if ty.startswith('opq'): return OPQ
    raise Unsup('sort of ' + ty)

_ctr = [0]
def reset(): _ctr[0] = 0
def fresh(name, sort):
    _ctr[0] += 1
    return z3.Const('%s!%d' % (name, _ctr[0]), sort)

class V:
    __slots__ = ()

class Sc(V):
    __slots__ = ('z', 'ty')
    def __init__(s, z, ty): s.z, s.ty = z, ty
    def __repr__(s): return '%s:%s' % (s.z, s.ty)

class St(V):
    __slots__ = ('name', 'f')
    def __init__(s, name, f): s.name, s.f = name, f
    def __repr__(s): return '%s%s' % (s.name, s.f)
    def upd(s, k, v):
        d = dict(s.f); d[k] = v
        return St(s.name, d)

class En(V):
    __slots__ = ('name', 'var', 'f')
    def __init__(s, name, var, f=None): s.name, s.var, s.f = name, var, f or {}
    def __repr__(s): return '%s::%s%s' % (s.name, s.var, s.f)

class SEn(V):
    """Enum whose variant is symbolic; a variant without payload record (None) has not been built so far."""
    __slots__ = ('name', 'tag', 'f')
    def __init__(s, name, tag, f): s.name, s.tag, s.f = name, tag, f
    def __repr__(s): return '%s?%s%s' % (s.name, s.tag, s.f)

class Vc(V):
    __slots__ = ('n', 'tmpl', 'arrs')
    def __init__(s, n, tmpl, arrs): s.n, s.tmpl, s.arrs = n, tmpl, arrs
    def __repr__(s): return 'Vec(n=%s,%s)' % (s.n, s.arrs)

class LV(V):
    """Vector or array of statically known length."""
    __slots__ = ('items',)
    def __init__(s, items): s.items = items
    def __repr__(s): return 'LV%s' % (s.items,)

class Ref(V):
    __slots__ = ('cell', 'path')
    def __init__(s, cell, path=()): s.cell, s.path = cell, tuple(path)
    def __repr__(s): return '&%s%s' % (s.cell, s.path)
    def to(s, *p): return Ref(s.cell, s.path + p)

class Sl(V):
    __slots__ = ('ref', 'lo', 'n')
    def __init__(s, ref, lo, n): s.ref, s.lo, s.n = ref, lo, n
    def __repr__(s): return '%s[%s;%s]' % (s.ref, s.lo, s.n)

class Clo(V):
    __slots__ = ('frame', 'node', 'uid')
    def __init__(s, frame, node): s.frame, s.node = frame, node
    def __repr__(s): return 'closure@%s' % (s.frame,)

class Fn(V):
    __slots__ = ('f', 'tenv')
    def __init__(s, f, tenv): s.f, s.tenv = f, tenv
    def __repr__(s): return 'fn ' + s.f['p']

class Mp(V):
    """HashMap: domain array and value arrays (keys are integers)."""
    __slots__ = ('dom', 'tmpl', 'arrs', 'kty')
    def __init__(s, dom, tmpl, arrs, kty): s.dom, s.tmpl, s.arrs, s.kty = dom, tmpl, arrs, kty

class Abr(V):
    """Abrupt completion: 'break', 'continue', 'return', 'dead'."""
    __slots__ = ('kind', 'label', 'val')
    def __init__(s, kind, label=None, val=None): s.kind, s.label, s.val = kind, label, val

UNIT = St('tuple', {})
def tup(*vs): return St('tuple', {str(i): v for i, v in enumerate(vs)})
def some(v): return En('Option', 'Some', {'0': v})
NONE = En('Option', 'None')
def ok(v): return En('Result', 'Ok', {'0': v})
def err(v): return En('Result', 'Err', {'0': v})
def boolv(b): return Sc(z3.BoolVal(b) if isinstance(b, bool) else b, 'bool')
def iv(n, ty='usize'): return Sc(z3.IntVal(n) if isinstance(n, int) else n, ty)

# ------------------------------------------------------------------ enums
VARS = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'Ordering': ['Less', 'Equal', 'Greater'],
        'ControlFlow': ['Continue', 'Break'], 'Cow': ['Borrowed', 'Owned']}

def tagof(v):
    if isinstance(v, En): return z3.IntVal(VARS[v.name].index(v.var))
    return v.tag

def is_var(v, var):
    """Condition that enum value v has variant var (a z3 Bool)."""
    if isinstance(v, En): return z3.BoolVal(v.var == var)
    return v.tag == VARS[v.name].index(var)

# ------------------------------------------------------------------ leaves
def lwalk(v, pre=''):
    """Yield (name, z3 leaf, type) in a fixed order."""
    if v is None: return
    if isinstance(v, Sc): yield (pre, v.z, v.ty)
    elif isinstance(v, St):
        for k in sorted(v.f): yield from lwalk(v.f[k], pre + '.' + k)
    elif isinstance(v, En):
        for k in sorted(v.f): yield from lwalk(v.f[k], pre + '.' + v.var + '.' + k)
    elif isinstance(v, SEn):
        yield (pre + '#', v.tag, 'tag')
        for var in VARS[v.name]:
            d = v.f.get(var)
            if d:
                for k in sorted(d): yield from lwalk(d[k], pre + '.' + var + '.' + k)
    elif isinstance(v, Vc):
        yield (pre + '.len', v.n, 'len')
        if v.tmpl is not None:
            for (nm, _, ty), a in zip(lwalk(v.tmpl), v.arrs): yield (pre + '[]' + nm, a, 'arr:' + ty)
    elif isinstance(v, LV):
        for i, x in enumerate(v.items): yield from lwalk(x, pre + '.' + str(i))
    elif isinstance(v, Ref):
        for i, p in enumerate(v.path):
            if p[0] == 'i': yield (pre + '@%d' % i, p[1], 'idx')
    elif isinstance(v, Sl):
        yield from lwalk(v.ref, pre + '@')
        yield (pre + '.lo', v.lo, 'idx')
        yield (pre + '.n', v.n, 'idx')
    elif isinstance(v, Mp):
        yield (pre + '.dom', v.dom, 'dom')
        if v.tmpl is not None:
            for (nm, _, ty), a in zip(lwalk(v.tmpl), v.arrs): yield (pre + '{}' + nm, a, 'map:' + ty)
    elif isinstance(v, (Clo, Fn)): return
    else: raise Unsup('leaves of %r' % (v,))

def leaves(v): return [z for _, z, _ in lwalk(v)]

def _rb(v, it):
    if v is None: return None
    if isinstance(v, Sc): return Sc(next(it), v.ty)
    if isinstance(v, St): return St(v.name, {k: _rb(v.f[k], it) for k in sorted(v.f)})
    if isinstance(v, En): return En(v.name, v.var, {k: _rb(v.f[k], it) for k in sorted(v.f)})
    if isinstance(v, SEn):
        tag = next(it); d = {}
        for var in VARS[v.name]:
            x = v.f.get(var)
            d[var] = None if x is None else {k: _rb(x[k], it) for k in sorted(x)}
        return SEn(v.name, tag, d)
    if isinstance(v, Vc):
        n = next(it)
        return Vc(n, v.tmpl, [next(it) for _ in v.arrs])
    if isinstance(v, LV): return LV([_rb(x, it) for x in v.items])
    if isinstance(v, Ref): return Ref(v.cell, tuple(('i', next(it)) if p[0] == 'i' else p for p in v.path))
    if isinstance(v, Sl):
        r = _rb(v.ref, it); lo = next(it)
        return Sl(r, lo, next(it))
    if isinstance(v, Mp):
        d = next(it)
        return Mp(d, v.tmpl, [next(it) for _ in v.arrs], v.kty)
    return v

def rebuild(v, ls):
    it = iter(ls)
    r = _rb(v, it)
    return r

def havoc(v, name='h', only=None):
    ls = leaves(v)
    return rebuild(v, [fresh(name, z.sort()) if only is None or i in only else z for i, z in enumerate(ls)])

def default_payload(ex):
    return havoc(ex, 'junk')

# ------------------------------------------------------------------ shapes
def same(a, b):
    """Same shape (leaf structure)."""
    if a is b: return True
    if a is None or b is None: return a is b
    if type(a) is not type(b): return False
    if isinstance(a, Sc): return a.ty == b.ty
    if isinstance(a, St): return a.name == b.name and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, En): return a.name == b.name and a.var == b.var and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, SEn):
        if a.name != b.name: return False
        for var in VARS[a.name]:
            x, y = a.f.get(var), b.f.get(var)
            if (x is None) != (y is None): return False
            if x is not None and not (x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)): return False
        return True
    if isinstance(a, Vc):
        if (a.tmpl is None) != (b.tmpl is None): return False
        return a.tmpl is None or same(a.tmpl, b.tmpl)
    if isinstance(a, LV): return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Ref):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(p[0] == q[0] and (p[0] == 'i' or p == q) for p, q in zip(a.path, b.path))
    if isinstance(a, Sl): return same(a.ref, b.ref)
    if isinstance(a, Mp): return a.kty == b.kty and (a.tmpl is None) == (b.tmpl is None) and (a.tmpl is None or same(a.tmpl, b.tmpl))
    if isinstance(a, Clo): return a.frame == b.frame and a.node is b.node
    if isinstance(a, Fn): return a.f['p'] == b.f['p']
    return False

def sym_template(v):
    """Shape usable as a vector element: every enum symbolic."""
    if isinstance(v, En):
        d = {var: None for var in VARS[v.name]}
        d[v.var] = {k: sym_template(x) for k, x in v.f.items()}
        return SEn(v.name, tagof(v), d)
    if isinstance(v, SEn):
        return SEn(v.name, v.tag, {var: None if v.f.get(var) is None else {k: sym_template(x) for k, x in v.f[var].items()} for var in VARS[v.name]})
    if isinstance(v, St): return St(v.name, {k: sym_template(x) for k, x in v.f.items()})
    if isinstance(v, LV): return to_vc(v)
    return v

def to_vc(v):
    if isinstance(v, Vc): return v
    t = None
    for x in v.items: t = sym_template(x) if t is None else gen(t, sym_template(x))
    r = Vc(z3.IntVal(len(v.items)), t, [z3.K(I, z) if False else fresh('va', z3.ArraySort(I, z.sort())) for z in (leaves(t) if t is not None else [])])
    for i, x in enumerate(v.items): r = vc_store(r, z3.IntVal(i), x)
    return r

def gen(a, b):
    """Most specific common generalisation of two shapes (leaf values are taken from a)."""
    if same(a, b): return a
    if a is None: return b
    if b is None: return a
    if isinstance(a, (En, SEn)) and isinstance(b, (En, SEn)) and a.name == b.name:
        a, b = sym_enum(a), sym_enum(b); d = {}
        for var in VARS[a.name]:
            x, y = a.f.get(var), b.f.get(var)
            if x is None: d[var] = y
            elif y is None: d[var] = x
            else: d[var] = {k: gen(x[k], y[k]) for k in x}
        return SEn(a.name, a.tag, d)
    if isinstance(a, (Vc, LV)) and isinstance(b, (Vc, LV)):
        if isinstance(a, LV) and isinstance(b, LV) and len(a.items) == len(b.items):
            return LV([gen(x, y) for x, y in zip(a.items, b.items)])
        a, b = to_vc(a), to_vc(b)
        if a.tmpl is None: return Vc(a.n, b.tmpl, b.arrs)
        if b.tmpl is None: return a
        t = gen(a.tmpl, b.tmpl)
        return Vc(a.n, t, [fresh('ga', z3.ArraySort(I, z.sort())) for z in leaves(t)])
    if type(a) is type(b):
        if isinstance(a, St) and a.name == b.name and a.f.keys() == b.f.keys():
            return St(a.name, {k: gen(a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Mp) and a.kty == b.kty:
            if a.tmpl is None: return Mp(a.dom, b.tmpl, b.arrs, a.kty)
            if b.tmpl is None: return a
    raise Unsup('cannot join %r with %r' % (a, b))

def sym_enum(v):
    if isinstance(v, SEn): return v
    d = {var: None for var in VARS[v.name]}
    d[v.var] = dict(v.f)
    return SEn(v.name, tagof(v), d)

def coerce(v, ex):
    """Give v the shape of ex."""
    if same(v, ex): return v
    if v is None: return default_payload(ex)
    if isinstance(ex, SEn) and isinstance(v, (En, SEn)):
        v = sym_enum(v); d = {}
        for var in VARS[ex.name]:
            x = ex.f.get(var)
            if x is None:
                if v.f.get(var) is not None: raise Unsup('coerce')
                d[var] = None
            else:
                y = v.f.get(var)
                d[var] = {k: (default_payload(x[k]) if y is None else coerce(y[k], x[k])) for k in x}
        return SEn(ex.name, v.tag, d)
    if isinstance(ex, Vc) and isinstance(v, (Vc, LV)):
        if isinstance(v, LV):
            r = Vc(z3.IntVal(0), ex.tmpl, [fresh('ca', z3.ArraySort(I, z.sort())) for z in leaves(ex.tmpl)] if ex.tmpl is not None else [])
            for i, x in enumerate(v.items): r = vc_store(r, z3.IntVal(i), x)
            return Vc(z3.IntVal(len(v.items)), r.tmpl, r.arrs)
        if v.tmpl is None: return Vc(v.n, ex.tmpl, [fresh('ca', z3.ArraySort(I, z.sort())) for z in leaves(ex.tmpl)])
    if isinstance(ex, Mp) and isinstance(v, Mp) and v.tmpl is None:
        return Mp(v.dom, ex.tmpl, [fresh('cm', z3.ArraySort(I, z.sort())) for z in leaves(ex.tmpl)], v.kty)
    if isinstance(ex, St) and isinstance(v, St) and v.name == ex.name and v.f.keys() == ex.f.keys():
        return St(v.name, {k: coerce(v.f[k], ex.f[k]) for k in v.f})
    if isinstance(ex, LV) and isinstance(v, LV) and len(v.items) == len(ex.items):
        return LV([coerce(x, y) for x, y in zip(v.items, ex.items)])
    if isinstance(ex, Sc) and isinstance(v, Sc) and v.z.sort() == ex.z.sort():
        return Sc(v.z, ex.ty)
    raise Unsup('coerce %r to %r' % (v, ex))

# ------------------------------------------------------------------ vectors
TABHOOK = [None]
def sel(a, i):
    """Select with read-over-write simplification on identical or distinct literal indices."""
    while z3.is_store(a):
        j = a.arg(1)
        if j.eq(i): return a.arg(2)
        if z3.is_int_value(j) and z3.is_int_value(i): a = a.arg(0); continue
        d = z3.simplify(j - i)
        if z3.is_int_value(d):
            if d.as_long() == 0: return a.arg(2)
            a = a.arg(0); continue
        break
    if TABHOOK[0][0](a): return TABHOOK[0][1](a, i)
    return z3.Select(a, i)

def vc_get(v, i):
    if v.tmpl is None: raise Unsup('element of a vector of unknown type')
    return rebuild(v.tmpl, [sel(a, i) for a in v.arrs])

def vc_store(v, i, x):
    """v[i] := x (no length change)."""
    t = sym_template(x)
    if v.tmpl is None:
        v = Vc(v.n, t, [fresh('va', z3.ArraySort(I, z.sort())) for z in leaves(t)])
    elif not same(v.tmpl, t):
        g = gen(v.tmpl, t)
        if not same(g, v.tmpl):
            if isinstance(v.n, z3.IntNumRef) and v.n.as_long() == 0:
                v = Vc(v.n, g, [fresh('va', z3.ArraySort(I, z.sort())) for z in leaves(g)])
            else: v = vc_widen(v, g)
        t = coerce(t, g)
    ls = leaves(t)
    out = []
    for a, z in zip(v.arrs, ls):
        if z3.is_select(z) and z.arg(0).eq(a) and z.arg(1).eq(i): out.append(a)
        else: out.append(z3.Store(a, i, z))
    return Vc(v.n, v.tmpl, out)

def vc_widen(v, g):
    """Re-represent v with the more general element shape g (old leaves are found by name)."""
    old = {nm: a for (nm, _, _), a in zip(lwalk(v.tmpl), v.arrs)}
    out = []
    for nm, z, ty in lwalk(g):
        out.append(old[nm] if nm in old and old[nm].sort().range() == z.sort() else fresh('wa', z3.ArraySort(I, z.sort())))
    if any(nm not in {n for n, _, _ in lwalk(g)} for nm in old): raise Unsup('widen')
    return Vc(v.n, g, out)

# ------------------------------------------------------------------ floats
def f32bits(x):
    try: return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
def bits2f(b): return struct.unpack('<f', struct.pack('<I', b))[0]
FC = {}   # name -> bits
def fconst(x):
    b = f32bits(x)
    if x != x: b = 0x7fc00000
    nm = 'f32_%08x' % b
    FC[nm] = b
    return z3.Const(nm, F)
def fbits(z):
    return FC.get(z.decl().name()) if z3.is_const(z) else None
DC = {}
def dconst(x):
    b = struct.unpack('<Q', struct.pack('<d', x))[0]
    nm = 'f64_%016x' % b
    DC[nm] = b
    return z3.Const(nm, D)
SL = {}   # literal name -> text
def sconst(t):
    nm = 'str_' + t
    SL[nm] = t
    return z3.Const(nm, STR)
def slit(z):
    return SL.get(z.decl().name()) if z3.is_const(z) else None
