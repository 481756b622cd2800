"""Models of the standard library and the dependencies (trusted contracts on external functions)."""
import re
import z3
from values import *
import theory as T

def simp(p):
    """alloc::vec::Vec::<T, A>::len -> Vec::len;  core::slice::<impl [T]>::iter -> slice::iter"""
    q = p; prev = None
    m = re.match(r'^<(.*) as (.*)>::(\w+)$', q)
    if m: q = m.group(2) + '::' + m.group(3)
    m = re.search(r'<impl ([^>]*?)>::(\w+)$', q)
    if m:
        t = m.group(1)
        t = 'slice' if t.startswith('[') else ('int' if t in INTS else t)
        if ' for ' in t: t = t.split(' for ')[0].split('::')[-1]
        return t + '::' + m.group(2)
    while prev != q:
        prev = q; q = re.sub(r'(::)?<[^<>]*>', '', q)
    return '::'.join(q.split('::')[-2:])

USED = set()
REG = {}
def model(*names):
    def d(fn):
        for n in names: REG[n] = fn
        return fn
    return d

def call(eng, st, f, args, fr, e):
    names = [simp(f['p'])]
    if f.get('trait') and f['trait'].startswith('core::iter') and f.get('name'): names.insert(0, 'Iterator::' + f['name'] if f['trait'].endswith('Iterator') and not f['trait'].endswith('IntoIterator') else names[0])
    for n in names:
        if n in REG:
            USED.add(n)
            eng.used_models.add(n)
            return REG[n](eng, st, f, args, fr, e)
    t = f.get('trait')
    if t and t in eng.opaque_traits: return eng.opaque_traits[t](eng, st, f, args, fr, e)
    raise Unsup('no model for ' + f['p'] + ' (' + names[0] + ')')

def call_opaque(eng, st, fv, args, fr, e):
    if eng.opaque_fn: return eng.opaque_fn(eng, st, fv, args, fr, e)
    raise Unsup('call of an unknown function value')

def one(st, v): return [(st, v)]
def where(e): return (e or {}).get('sp', '')

# ------------------------------------------------------------------ enums
def variants(eng, st, v):
    """Split an enum value: [(state, variant, payload dict)]"""
    v = v if isinstance(v, (En, SEn)) else eng.deref(st, v)
    if isinstance(v, En): return [(st, v.var, v.f)]
    out = []
    cur = st
    vs = VARS[v.name]
    pend = [st]
    for i, var in enumerate(vs):
        nxt = []
        for s in pend:
            for s2, b in eng.split(s, v.tag == i):
                if b: out.append((s2, var, v.f.get(var)))
                else: nxt.append(s2)
        pend = nxt
    return [(s, var, d if d is not None else None) for s, var, d in out if d is not None or not needs_payload(v.name, var)]
def needs_payload(n, var): return (n, var) in (('Option', 'Some'), ('Result', 'Ok'), ('Result', 'Err'), ('ControlFlow', 'Break'), ('ControlFlow', 'Continue'))
def ref_variants(eng, st, r):
    """Split an enum behind a reference: [(state, variant, fn(field)->Ref)]"""
    r = eng.chase(st, r)
    v = eng.read(st, r)
    return [(s, var, (lambda k, var=var: r.to(('v', var, k)))) for s, var, d in variants(eng, st, v)]
def en(name, var, **k): return En(name, var, {a.lstrip('_'): b for a, b in k.items()})
ANY = object()
def cv(eng, s, f, args, fr, e): return eng.call_value(s, f, args, fr, e)

def comb(on, wrap):
    """Combinators: for variant `on` call the closure on the payload and wrap, otherwise pass through."""
    def m(eng, st, f, a, fr, e):
        out = []
        for s, var, d in variants(eng, st, a[0]):
            if var == on: out += eng.bind(cv(eng, s, a[1], [d['0']] if d else [], fr, e), lambda s2, v: [(s2, wrap(v))])
            else: out.append((s, En(name_of(a[0], eng, st), var, d or {})))
        return out
    return m
def name_of(v, eng, st):
    v = eng.deref(st, v)
    return v.name
REG['Option::map'] = comb('Some', some)
REG['Option::and_then'] = comb('Some', lambda v: v)
REG['Result::map'] = comb('Ok', ok)
REG['Result::map_err'] = comb('Err', err)
REG['Result::and_then'] = comb('Ok', lambda v: v)
REG['Option::or_else'] = comb('None', lambda v: v)
REG['Result::or_else'] = comb('Err', lambda v: v)

@model('Option::unwrap_or_else', 'Result::unwrap_or_else', 'Option::unwrap_or', 'Result::unwrap_or', 'Option::unwrap_or_default', 'Result::unwrap_or_default')
def _(eng, st, f, a, fr, e):
    out = []
    n = f['name']
    for s, var, d in variants(eng, st, a[0]):
        if var in ('Some', 'Ok'): out.append((s, d['0']))
        elif n == 'unwrap_or': out.append((s, a[1]))
        elif n == 'unwrap_or_default': out.append((s, default_of(eng, s, f['args'][0])))
        else: out += cv(eng, s, a[1], [d['0']] if var == 'Err' else [], fr, e)
    return eng.merge(st, out) if len(out) == 2 else out
@model('Option::map_or_else', 'Result::map_or_else', 'Option::map_or', 'Result::map_or', 'Option::is_some_and', 'Option::is_none_or', 'Result::is_ok_and')
def _(eng, st, f, a, fr, e):
    out = []; n = f['name']
    for s, var, d in variants(eng, st, a[0]):
        if var in ('Some', 'Ok'): out += cv(eng, s, a[2] if n.startswith('map') else a[1], [d['0']], fr, e)
        elif n == 'map_or': out.append((s, a[1]))
        elif n in ('is_some_and', 'is_ok_and'): out.append((s, boolv(False)))
        elif n == 'is_none_or': out.append((s, boolv(True)))
        else: out += cv(eng, s, a[1], [d['0']] if var == 'Err' else [], fr, e)
    return eng.merge(st, out) if len(out) == 2 else out
@model('Option::ok_or_else', 'Option::ok_or')
def _(eng, st, f, a, fr, e):
    out = []
    for s, var, d in variants(eng, st, a[0]):
        if var == 'Some': out.append((s, ok(d['0'])))
        elif f['name'] == 'ok_or': out.append((s, err(a[1])))
        else: out += eng.bind(cv(eng, s, a[1], [], fr, e), lambda s2, v: [(s2, err(v))])
    return out
@model('Result::ok', 'Result::err')
def _(eng, st, f, a, fr, e):
    want = 'Ok' if f['name'] == 'ok' else 'Err'
    return [(s, some(d['0']) if var == want else NONE) for s, var, d in variants(eng, st, a[0])]
@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def _(eng, st, f, a, fr, e):
    v = eng.deref(st, a[0])
    w = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[f['name']]
    return one(st, boolv(is_var(v, w)))
@model('Option::as_ref', 'Option::as_mut', 'Option::as_deref', 'Option::as_deref_mut', 'Result::as_ref', 'Result::as_mut')
def _(eng, st, f, a, fr, e):
    out = []
    r = eng.chase(st, a[0]); nm = eng.read(st, r).name
    for s, var, g in ref_variants(eng, st, r):
        if var == 'None': out.append((s, NONE)); continue
        out.append((s, En(nm, var, {'0': g('0')})))
    return out
@model('Option::take')
def _(eng, st, f, a, fr, e):
    r = eng.chase(st, a[0]); v = eng.read(st, r)
    eng.write(st, r, NONE)
    return one(st, v)
@model('Option::replace', 'Option::insert', 'Option::get_or_insert')
def _(eng, st, f, a, fr, e):
    r = eng.chase(st, a[0]); v = eng.read(st, r)
    if f['name'] == 'get_or_insert': raise Unsup('get_or_insert')
    eng.write(st, r, some(a[1]))
    return one(st, v if f['name'] == 'replace' else r.to(('v', 'Some', '0')))
@model('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Option::unwrap_unchecked', 'Result::expect_err', 'Result::unwrap_err')
def _(eng, st, f, a, fr, e):
    v = eng.deref(st, a[0])
    w = 'Some' if v.name == 'Option' else ('Err' if f['name'].endswith('_err') else 'Ok')
    eng.oblige(st, is_var(v, w), '%s: the value is %s' % (f['name'], w), where=where(e))
    out = []
    for s, var, d in variants(eng, st, v):
        if var == w and d: out.append((s, d['0']))
    return out
@model('Option::filter')
def _(eng, st, f, a, fr, e):
    out = []
    for s, var, d in variants(eng, st, a[0]):
        if var == 'None': out.append((s, NONE)); continue
        for s2, b in cv(eng, s, a[1], [eng.tmp(s, d['0'])], fr, e):
            for s3, c in eng.split(s2, b.z): out.append((s3, some(d['0']) if c else NONE))
    return out
@model('Option::or', 'Option::and', 'Option::xor', 'Result::or', 'Result::and')
def _(eng, st, f, a, fr, e):
    out = []
    for s, var, d in variants(eng, st, a[0]):
        pos = var in ('Some', 'Ok')
        if f['name'] == 'or': out.append((s, En(name_of(a[0], eng, st), var, d) if pos else a[1]))
        elif f['name'] == 'and': out.append((s, a[1] if pos else En(name_of(a[0], eng, st), var, d or {})))
        else: raise Unsup('xor')
    return out
@model('Option::copied', 'Option::cloned')
def _(eng, st, f, a, fr, e):
    return [(s, some(eng.deref(s, d['0'])) if var == 'Some' else NONE) for s, var, d in variants(eng, st, a[0])]
@model('Option::flatten')
def _(eng, st, f, a, fr, e):
    return [(s, d['0'] if var == 'Some' else NONE) for s, var, d in variants(eng, st, a[0])]
@model('bool::then_some', 'bool::then')
def _(eng, st, f, a, fr, e):
    out = []
    for s, b in eng.split(st, a[0].z):
        if not b: out.append((s, NONE))
        elif f['name'] == 'then_some': out.append((s, some(a[1])))
        else: out += eng.bind(cv(eng, s, a[1], [], fr, e), lambda s2, v: [(s2, some(v))])
    return out
@model('Option::zip')
def _(eng, st, f, a, fr, e):
    out = []
    for s, var, d in variants(eng, st, a[0]):
        if var == 'None': out.append((s, NONE)); continue
        for s2, v2, d2 in variants(eng, s, a[1]): out.append((s2, some(tup(d['0'], d2['0'])) if v2 == 'Some' else NONE))
    return out

# `?`
@model('Try::branch')
def _(eng, st, f, a, fr, e):
    out = []
    for s, var, d in variants(eng, st, a[0]):
        nm = name_of(a[0], eng, s)
        if var in ('Ok', 'Some', 'Continue'): out.append((s, En('ControlFlow', 'Continue', {'0': d.get('0', UNIT)})))
        else: out.append((s, En('ControlFlow', 'Break', {'0': En(nm, var, d or {})})))
    return out
@model('FromResidual::from_residual')
def _(eng, st, f, a, fr, e):
    v = a[0]
    if v.name == 'Option' or v.name == 'ControlFlow': return one(st, v)
    t = eng.sub(f['args'][0], fr.tenv)
    x = v.f['0'] if isinstance(v, En) else v.f['Err']['0']
    target = t['args'][1] if t['k'] == 'adt' and len(t['args']) > 1 else None
    return eng.bind(convert(eng, st, x, target, fr, e), lambda s, y: [(s, err(y))])
@model('Try::from_output')
def _(eng, st, f, a, fr, e):
    t = eng.sub(f['args'][0], fr.tenv)
    n = t['p'].split('::')[-1]
    return one(st, En(n, {'Option': 'Some', 'Result': 'Ok', 'ControlFlow': 'Continue'}[n], {'0': a[0]}))
def convert(eng, st, x, target, fr, e):
    """From::from of an error value into the target type."""
    if target is None or target.get('k') != 'adt': return one(st, x)
    tn = target['p'].split('::')[-1]
    xn = eng.tyname(x)
    if tn == xn or (isinstance(x, St) and x.name == 'anyhow' and target['p'].startswith('anyhow')): return one(st, x)
    if target['p'].startswith('anyhow'): return one(st, St('anyhow', {'e': x}))
    for im in eng.P.impls:
        if im['trait'] == 'core::convert::From' and im['self'].get('p') == target['p']:
            for it in im['items']:
                fn = eng.P.fns.get(it)
                if fn and fn['body'] and matches_ty(eng, x, fn['body']['params'][0]['ty']):
                    return eng.inline(st, fn, [x], {})
    raise Unsup('conversion of %s into %s' % (xn, tn))
def matches_ty(eng, x, t):
    if t['k'] != 'adt': return False
    l = t['p'].split('::')[-1]
    if isinstance(x, St) and x.name == 'anyhow': return t['p'].startswith('anyhow')
    return l == eng.tyname(x)

# ------------------------------------------------------------------ conversions and copies
def ident(eng, st, f, a, fr, e): return one(st, a[0])
for n in ('hint::must_use', 'Box::new', 'Arc::new', 'Mutex::new', 'Rc::new', 'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow',
          'Vec::as_slice', 'Vec::as_mut_slice', 'Vec::into_boxed_slice', 'slice::into_vec', 'String::as_str', 'Box::pin', 'BorrowMut::borrow_mut', 'identity', 'convert::identity',
          'Vec::leak', 'Option::into_iter_', 'String::into_boxed_str', 'Cow::into_owned', 'black_box', 'hint::black_box', 'any::type_name'): REG[n] = ident
REG['anyhow::Ok'] = lambda eng, st, f, a, fr, e: one(st, ok(a[0]))
@model('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'Into::into', 'Clone::clone_from_')
def _(eng, st, f, a, fr, e):
    v = a[0]
    if f['name'] == 'into':
        t = eng.sub(f['args'][1], fr.tenv) if len(f['args']) > 1 else None
        if isinstance(eng.deref(st, v), Sc) and eng.deref(st, v).ty == 'str': return one(st, eng.deref(st, v))
        if t and t['k'] == 'prim' and isinstance(v, Sc): return one(st, eng.cast(st, v, t['n']))
        return convert(eng, st, v, t, fr, e)
    if isinstance(v, Ref):
        v = eng.read(st, v)
        if isinstance(v, (Ref, Sl)) and f['name'] == 'clone': return one(st, v)
        v = eng.deref(st, v)
    if isinstance(v, Sl):
        if f['name'] == 'clone': return one(st, v)
        base = to_vc(eng.read(st, v.ref))
        if not z3.is_int_value(z3.simplify(v.lo)) or z3.simplify(v.lo).as_long() != 0: return one(st, shifted(eng, st, base, v.lo, v.n))
        return one(st, Vc(v.n, base.tmpl, base.arrs))
    return one(st, v)
def shifted(eng, st, base, lo, n):
    j = T.iv_('sh')
    arrs = []
    for a in base.arrs:
        b = fresh('sub', a.sort())
        st.assume(T.FA(j, z3.Select(b, j) == z3.Select(a, lo + j), [z3.Select(b, j)]))
        arrs.append(b)
    return Vc(n, base.tmpl, arrs)
@model('From::from', 'ToString::to_string', 'String::from', 'String::new', 'From::from_')
def _(eng, st, f, a, fr, e):
    if not a: return one(st, Sc(sconst(''), 'str'))
    v = eng.deref(st, a[0])
    if isinstance(v, Sc) and v.ty == 'str': return one(st, v)
    if f['name'] == 'to_string': return one(st, Sc(fresh('tostr', STR), 'str'))
    t = eng.sub(f['args'][0], fr.tenv)
    if t['k'] == 'prim' and isinstance(v, Sc): return one(st, eng.cast(st, v, t['n']))
    if t['k'] == 'adt' and t['p'].split('::')[-1] in ('Box', 'Arc', 'Vec'): return one(st, a[0])
    return convert(eng, st, a[0], t, fr, e)
@model('TryFrom::try_from', 'TryInto::try_into')
def _(eng, st, f, a, fr, e):
    t = eng.sub(f['args'][0 if f['name'] == 'try_from' else 1], fr.tenv)
    v = eng.deref(st, a[0])
    if t['k'] == 'prim' and t['n'] in INTS and isinstance(v, Sc) and v.ty in INTS:
        lo, hi = INTS[t['n']]
        return [(s, ok(Sc(v.z, t['n'])) if b else err(Sc(fresh('tfe', OPQ), 'opq:TryFromIntError'))) for s, b in eng.split(st, z3.And(v.z >= lo, v.z <= hi))]
    raise Unsup('try_from')
def default_of(eng, st, t):
    k = t['k']
    if k == 'prim':
        n = t['n']
        if n in INTS: return iv(0, n)
        if n == 'bool': return boolv(False)
        if n == 'f32': return Sc(fconst(0.0), 'f32')
        if n == 'f64': return Sc(dconst(0.0), 'f64')
    if k == 'adt':
        l = t['p'].split('::')[-1]
        if l == 'Vec': return Vc(z3.IntVal(0), None, [])
        if l == 'Option': return NONE
        if l == 'HashMap' or l == 'BTreeMap': return Mp(z3.K(I, z3.BoolVal(False)), None, [], 'u32')
        if l == 'String': return Sc(sconst(''), 'str')
    if k == 'tuple': return tup(*[default_of(eng, st, x) for x in t['ts']])
    raise Unsup('default of %s' % (t.get('p') or k))
@model('Default::default')
def _(eng, st, f, a, fr, e):
    t = eng.sub(f['args'][0], fr.tenv)
    if t['k'] == 'adt' and t['p'] in eng.P.adts:
        for im in eng.P.impls:
            if im['trait'] == 'core::default::Default' and im['self'].get('p') == t['p']:
                return eng.inline(st, eng.P.fns[im['items'][0]], [], dict(zip(eng.P.adts[t['p']]['generics'], t['args'])))
    return one(st, default_of(eng, st, t))

# formatting: the text of messages is not part of any property
@model('fmt::format', 'Arguments::new', 'Argument::new_display', 'Argument::new_debug', 'Arguments::new_const', 'Arguments::new_v1', 'Arguments::from_str', 'Argument::new_lower_exp', 'Arguments::from_str_nonconst', 'Argument::none', 'Argument::new_lower_hex')
def _(eng, st, f, a, fr, e):
    return one(st, Sc(fresh('text', STR), 'str') if f['name'] == 'format' else Sc(fresh('fmt', OPQ), 'opq:fmt'))
@model('anyhow::Error::msg', 'Error::msg', '__private::format_err', 'Error::new', 'kind::Adhoc', '__private::must_use')
def _(eng, st, f, a, fr, e):
    if f['name'] == 'must_use': return one(st, a[0])
    return one(st, St('anyhow', {'e': a[0] if a else UNIT}))
@model('panicking::panic', 'panicking::panic_fmt', 'panicking::panic_display', 'rt::panic_fmt', 'rt::begin_panic', 'panicking::unreachable_display', 'panicking::assert_failed', 'panicking::panic_explicit', 'intrinsics::unreachable', 'hint::unreachable_unchecked', 'panicking::panic_nounwind', 'option::unwrap_failed', 'panicking::panic_str_2015', 'process::abort', 'panicking::unreachable_fmt')
def _(eng, st, f, a, fr, e):
    eng.oblige(st, z3.BoolVal(False), 'panic is unreachable', where=where(e))
    return []
@model('Error::downcast_ref', 'Error::downcast')
def _(eng, st, f, a, fr, e): raise Unsup('downcast')
@model('intrinsics::discriminant_value', 'mem::discriminant')
def _(eng, st, f, a, fr, e): return one(st, Sc(tagof(eng.deref(st, a[0])), 'isize'))
@model('mem::replace')
def _(eng, st, f, a, fr, e):
    r = eng.chase(st, a[0]); v = eng.read(st, r); eng.write(st, r, a[1])
    return one(st, v)
@model('mem::take')
def _(eng, st, f, a, fr, e):
    r = eng.chase(st, a[0]); v = eng.read(st, r)
    out = []
    for s, d in REG['Default::default'](eng, st, f, [], fr, e):
        eng.write(s, r, d); out.append((s, v))
    return out
@model('mem::swap')
def _(eng, st, f, a, fr, e):
    r, q = eng.chase(st, a[0]), eng.chase(st, a[1])
    x, y = eng.read(st, r), eng.read(st, q)
    eng.write(st, r, y); eng.write(st, q, x)
    return one(st, UNIT)
@model('mem::drop', 'mem::forget')
def _(eng, st, f, a, fr, e): return one(st, UNIT)

# ------------------------------------------------------------------ comparisons and arithmetic
def ordv(lt, eq): return SEn('Ordering', z3.If(lt, 0, z3.If(eq, 1, 2)), {'Less': {}, 'Equal': {}, 'Greater': {}})
@model('PartialOrd::partial_cmp', 'Ord::cmp', 'f32::total_cmp')
def _(eng, st, f, a, fr, e):
    x, y = eng.deref(st, a[0]), eng.deref(st, a[1])
    if not isinstance(x, Sc) or not isinstance(y, Sc): raise Unsup('comparison of %r' % (x,))
    n = f['name']
    if n == 'total_cmp': return one(st, ordv(T.TK(x.z) < T.TK(y.z), T.TK(x.z) == T.TK(y.z)))
    if x.ty == 'f32':
        o = SEn('Option', z3.If(z3.And(T.nn(x.z), T.nn(y.z)), 1, 0), {'None': {}, 'Some': {'0': ordv(T.K(x.z) < T.K(y.z), T.K(x.z) == T.K(y.z))}})
        return one(st, o)
    if x.ty in INTS or x.ty == 'char':
        o = ordv(x.z < y.z, x.z == y.z)
        return one(st, o if n == 'cmp' else some(o))
    raise Unsup('cmp of ' + x.ty)
@model('Ordering::reverse', 'Ordering::is_lt', 'Ordering::is_gt', 'Ordering::is_le', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne', 'Ordering::then')
def _(eng, st, f, a, fr, e):
    t = tagof(eng.deref(st, a[0])); n = f['name']
    if n == 'reverse': return one(st, SEn('Ordering', 2 - t, {'Less': {}, 'Equal': {}, 'Greater': {}}))
    if n == 'then': return one(st, SEn('Ordering', z3.If(t == 1, tagof(a[1]), t), {'Less': {}, 'Equal': {}, 'Greater': {}}))
    return one(st, boolv({'is_lt': t == 0, 'is_gt': t == 2, 'is_le': t != 2, 'is_ge': t != 0, 'is_eq': t == 1, 'is_ne': t != 1}[n]))
@model('Ordering::then_with')
def _(eng, st, f, a, fr, e):
    t = tagof(eng.deref(st, a[0])); out = []
    for s, b in eng.split(st, t == 1):
        if b: out += cv(eng, s, a[1], [], fr, e)
        else: out.append((s, SEn('Ordering', t, {'Less': {}, 'Equal': {}, 'Greater': {}})))
    return out
OPS = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge', 'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}
@model('PartialEq::eq', 'PartialEq::ne', 'PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge', 'Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem')
def _(eng, st, f, a, fr, e):
    x, y = eng.deref(st, a[0]), eng.deref(st, a[1])
    return eng.binop(st, OPS[f['name']], x, y, where(e))
@model('AddAssign::add_assign', 'SubAssign::sub_assign', 'MulAssign::mul_assign', 'DivAssign::div_assign')
def _(eng, st, f, a, fr, e):
    r = eng.chase(st, a[0])
    return eng.bind(eng.binop(st, OPS[f['name'].split('_')[0]], eng.read(st, r), eng.deref(st, a[1]), where(e)), lambda s, v: [(s, (eng.write(s, r, v), UNIT)[1])])
@model('Neg::neg', 'Not::not')
def _(eng, st, f, a, fr, e):
    v = eng.deref(st, a[0])
    if v.ty == 'bool': return one(st, boolv(z3.Not(v.z)))
    if v.ty == 'f32': return one(st, Sc(T.fneg(v.z), 'f32'))
    raise Unsup('neg')
@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min', 'Ord::clamp')
def _(eng, st, f, a, fr, e):
    x, y = eng.deref(st, a[0]), eng.deref(st, a[1])
    if not (isinstance(x, Sc) and (x.ty in INTS or x.ty == 'char')): raise Unsup('max of %r' % (x,))
    if f['name'] == 'max': return one(st, Sc(z3.If(x.z > y.z, x.z, y.z), x.ty))
    if f['name'] == 'min': return one(st, Sc(z3.If(x.z <= y.z, x.z, y.z), x.ty))
    hi = eng.deref(st, a[2])
    eng.oblige(st, y.z <= hi.z, 'clamp bounds are ordered', where=where(e))
    return one(st, Sc(z3.If(x.z < y.z, y.z, z3.If(x.z > hi.z, hi.z, x.z)), x.ty))
def arith(n):
    def m(eng, st, f, a, fr, e):
        x, y = eng.deref(st, a[0]), eng.deref(st, a[1])
        lo, hi = INTS[x.ty]
        kind, op = n.split('_')
        if op in ('div', 'rem'):
            if lo < 0: raise Unsup('signed ' + n)
            r = x.z / y.z if op == 'div' else x.z % y.z
            good = y.z != 0
        else:
            r = {'add': x.z + y.z, 'sub': x.z - y.z, 'mul': x.z * y.z}[op]
            good = z3.And(r >= lo, r <= hi)
        r = z3.simplify(r)
        if kind == 'saturating': return one(st, Sc(z3.If(r < lo, lo, z3.If(r > hi, z3.IntVal(hi), r)), x.ty))
        if kind == 'checked': return [(s, some(Sc(r, x.ty)) if b else NONE) for s, b in eng.split(st, good)]
        w = fresh('wrap', I)
        st.assume(z3.And(w >= lo, w <= hi, z3.Implies(good, w == r)))
        if kind == 'wrapping': return one(st, Sc(w, x.ty))
        return one(st, tup(Sc(w, x.ty), boolv(z3.Not(good))))
    return m
for k in ('saturating', 'checked', 'wrapping', 'overflowing'):
    for o in ('add', 'sub', 'mul', 'div', 'rem'): REG['int::%s_%s' % (k, o)] = arith('%s_%s' % (k, o))
@model('int::abs_diff')
def _(eng, st, f, a, fr, e):
    x, y = a
    return one(st, Sc(z3.If(x.z > y.z, x.z - y.z, y.z - x.z), x.ty))
@model('int::div_ceil')
def _(eng, st, f, a, fr, e):
    x, y = a
    eng.oblige(st, y.z != 0, 'divisor is not zero', where=where(e))
    return one(st, Sc(z3.If(x.z % y.z == 0, x.z / y.z, x.z / y.z + 1), x.ty))
@model('int::is_power_of_two', 'int::leading_zeros', 'int::trailing_zeros', 'int::count_ones', 'int::pow')
def _(eng, st, f, a, fr, e): raise Unsup('bit operation')

def _f(a, eng, st): return eng.deref(st, a).z
for n in T.UNF:
    def mk(n):
        def m(eng, st, f, a, fr, e): return one(st, Sc(T.UNF[n](_f(a[0], eng, st)), 'f32'))
        return m
    REG['f32::' + n] = mk(n)
for n in T.BIF:
    def mk(n):
        def m(eng, st, f, a, fr, e): return one(st, Sc(T.BIF[n](_f(a[0], eng, st), _f(a[1], eng, st)), 'f32'))
        return m
    REG['f32::' + n] = mk(n)
@model('f32::abs', 'f32::is_nan', 'f32::is_finite', 'f32::is_infinite', 'f32::is_sign_negative', 'f32::is_sign_positive', 'f32::max', 'f32::min', 'f32::powi', 'f32::to_bits', 'f32::mul_add', 'f32::clamp', 'f32::is_normal')
def _(eng, st, f, a, fr, e):
    x = _f(a[0], eng, st); n = f['name']
    if n == 'abs': return one(st, Sc(T.fabs(x), 'f32'))
    if n == 'is_nan': return one(st, boolv(T.isnanf(x)))
    if n == 'is_finite': return one(st, boolv(T.finite(x)))
    if n == 'is_infinite': return one(st, boolv(z3.And(T.nn(x), z3.Or(T.K(x) == T.KINF, T.K(x) == -T.KINF))))
    if n == 'is_sign_negative': return one(st, boolv(T.TK(x) < 0))
    if n == 'is_sign_positive': return one(st, boolv(T.TK(x) >= 0))
    if n == 'powi': return one(st, Sc(T._powi(x, a[1].z), 'f32'))
    if n in ('max', 'min'):
        y = _f(a[1], eng, st)
        c = T.flt(x, y) if n == 'max' else T.flt(y, x)
        eqz = T.feq(x, y)      # +0 / -0: either may be returned
        r = fresh('fm', F)
        st.assume(z3.If(T.isnanf(x), r == y, z3.If(T.isnanf(y), r == x, z3.If(eqz, z3.Or(r == x, r == y), r == z3.If(c, y, x)))))
        return one(st, Sc(r, 'f32'))
    raise Unsup('f32::' + n)
@model('AsPrimitive::as_')
def _(eng, st, f, a, fr, e):
    ts = [eng.sub(x, fr.tenv) for x in f['args']]
    v = eng.deref(st, a[0])
    if len(ts) == 2 and ts[1]['k'] == 'prim' and isinstance(v, Sc): return one(st, eng.cast(st, v, ts[1]['n']))
    raise Unsup('as_')
@model('Float::infinity', 'Float::neg_infinity', 'Float::nan')
def _(eng, st, f, a, fr, e):
    x = {'infinity': float('inf'), 'neg_infinity': float('-inf'), 'nan': float('nan')}[f['name']]
    t = eng.sub(f['args'][0], fr.tenv)
    return one(st, Sc(dconst(x), 'f64') if t.get('n') == 'f64' else Sc(fconst(x), 'f32'))
# numeric conversions of num-traits: uninterpreted partial functions with the laws of the crate
def numconv(eng, st, v, tn):
    """Option<tn>: the value converted if representable."""
    if not isinstance(v, Sc): raise Unsup('numeric conversion')
    if v.ty in INTS and tn in INTS:
        lo, hi = INTS[tn]
        return [(s, some(Sc(v.z, tn)) if b else NONE) for s, b in eng.split(st, z3.And(v.z >= lo, v.z <= hi))]
    if v.ty == tn: return one(st, some(v))
    if v.ty == 'f64' and tn == 'f32': return one(st, some(Sc(T.d2f(v.z), 'f32')))
    if v.ty == 'f32' and tn == 'f64': return one(st, some(Sc(T.f2d(v.z), 'f64')))
    if v.ty in INTS and tn == 'f64': return one(st, some(Sc(T.i2d(v.z), 'f64')))
    if v.ty in INTS and tn == 'f32': return one(st, some(Sc(T.i2f(v.z), 'f32')))
    c = z3.Function('conv_%s_%s' % (v.ty.replace(':', '_'), tn.replace(':', '_')), v.z.sort(), B)
    r = z3.Function('cval_%s_%s' % (v.ty.replace(':', '_'), tn.replace(':', '_')), v.z.sort(), sort_of(tn))
    return [(s, some(Sc(r(v.z), tn)) if b else NONE) for s, b in eng.split(st, c(v.z))]
@model('NumCast::from', 'FromPrimitive::from_f64', 'FromPrimitive::from_u64', 'ToPrimitive::to_u64', 'ToPrimitive::to_f64', 'FromPrimitive::from_usize', 'FromPrimitive::from_f32')
def _(eng, st, f, a, fr, e):
    t = eng.sub(f['args'][0], fr.tenv)
    n = f['name']
    tn = n[3:] if n.startswith('to_') else (t['n'] if t['k'] == 'prim' else 'opq:' + (t.get('n') or 'T'))
    return numconv(eng, st, eng.deref(st, a[0]), tn)

# ------------------------------------------------------------------ strings
@model('str::is_empty', 'String::is_empty', 'str::trim', 'str::starts_with', 'str::as_bytes_', 'str::to_lowercase', 'str::to_ascii_lowercase', 'str::eq_ignore_ascii_case', 'str::trim_start', 'str::trim_end', 'str::len', 'String::len')
def _(eng, st, f, a, fr, e):
    v = eng.deref(st, a[0]); n = f['name']
    if not isinstance(v, Sc) or v.ty != 'str': raise Unsup('string')
    if n == 'is_empty': return one(st, boolv(T.strempty(v.z)))
    if n == 'trim': return one(st, Sc(T.strim(v.z), 'str'))
    if n == 'starts_with':
        w = eng.deref(st, a[1])
        if not isinstance(w, Sc) or w.ty != 'str': raise Unsup('starts_with')
        return one(st, boolv(T.strpre(v.z, w.z)))
    raise Unsup('str::' + n)
@model('FromStr::from_str', 'str::parse')
def _(eng, st, f, a, fr, e):
    v = eng.deref(st, a[0])
    t = eng.sub(f['args'][0], fr.tenv)
    tn = t['n'] if t['k'] == 'prim' else 'opq:' + t.get('n', 'T')
    c = z3.Function('parses_' + tn.replace(':', '_'), STR, B); r = z3.Function('parsed_' + tn.replace(':', '_'), STR, sort_of(tn))
    out = []
    for s, b in eng.split(st, c(v.z)):
        z = r(v.z)
        if b: eng.range_fact(s, z, tn); out.append((s, ok(Sc(z, tn))))
        else: out.append((s, err(Sc(fresh('parse_err', OPQ), 'opq:parse'))))
    return out
has_sep = z3.Function('has_sep', STR, STR, B); sep_l = z3.Function('sep_l', STR, STR, STR); sep_r = z3.Function('sep_r', STR, STR, STR)
split_n = z3.Function('split_n', STR, STR, I); split_at = z3.Function('split_at', STR, STR, z3.ArraySort(I, STR))
def sepof(eng, st, v):
    v = eng.deref(st, v)
    if isinstance(v, Sc) and v.ty == 'str': return v.z
    if isinstance(v, Sc) and v.ty == 'char' and z3.is_int_value(v.z): return sconst(chr(v.z.as_long()))
    raise Unsup('separator')
@model('str::split_once')
def _(eng, st, f, a, fr, e):
    v = eng.deref(st, a[0]); p = sepof(eng, st, a[1])
    return [(s, some(tup(Sc(sep_l(v.z, p), 'str'), Sc(sep_r(v.z, p), 'str'))) if b else NONE) for s, b in eng.split(st, has_sep(v.z, p))]
@model('str::split')
def _(eng, st, f, a, fr, e):
    v = eng.deref(st, a[0]); p = sepof(eng, st, a[1])
    n = split_n(v.z, p)
    st.assume(z3.And(n >= 1, n <= ISIZE_MAX))
    r = eng.tmp(st, Vc(n, Sc(fresh('part', STR), 'str'), [split_at(v.z, p)]), 'parts')
    return one(st, it_('vec', s=r, lo=ix(0), hi=Sc(n, 'idx')))
@model('String::with_capacity')
def _(eng, st, f, a, fr, e): return one(st, Sc(sconst(''), 'str'))

# ------------------------------------------------------------------ vectors and slices
def maxsize(eng, t):
    """An upper bound of the size of a type in bytes."""
    k = (t or {}).get('k')
    if k == 'prim': return {'bool': 1, 'char': 4}.get(t['n']) or int(re.sub(r'\D', '', t['n']) or 64) // 8
    if k in ('ref', 'ptr', 'str'): return 16
    if k == 'tuple': return 8 + sum(-(-maxsize(eng, x) // 8) * 8 for x in t['ts'])
    if k == 'adt' and t['p'] in eng.P.adts and not eng.P.adts[t['p']]['enum']:
        a = eng.P.adts[t['p']]
        te = dict(zip(a['generics'], t['args']))
        sz = [maxsize(eng, eng.sub(ft, te)) for _, ft in a['variants'][0]['fields']]
        return sum(-(-x // 8) * 8 for x in sz) if max(sz + [0]) > 4 else sum(-(-x // 4) * 4 for x in sz)
    return 128
def ix(n): return Sc(z3.IntVal(n) if isinstance(n, int) else z3.simplify(n), 'idx')
@model('Vec::new')
def _(eng, st, f, a, fr, e): return one(st, Vc(z3.IntVal(0), None, []))
@model('Vec::with_capacity', 'Vec::reserve', 'Vec::reserve_exact', 'HashMap::with_capacity', 'HashMap::new', 'HashMap::reserve', 'Vec::shrink_to_fit', 'HashSet::new', 'HashSet::with_capacity', 'BTreeMap::new')
def _(eng, st, f, a, fr, e):
    n = f['name']
    if n in ('with_capacity', 'reserve', 'reserve_exact'):
        c = a[-1].z
        t = eng.sub(f['args'][0], fr.tenv) if f.get('args') and fr is not None else None
        eng.oblige(st, c <= 2**63 // maxsize(eng, t) - 1, 'capacity does not overflow', where=where(e))
    if n.startswith('reserve') or n.startswith('shrink'): return one(st, UNIT)
    h = simp(f['p']).split('::')[0]
    if h == 'Vec': return one(st, Vc(z3.IntVal(0), None, []))
    return one(st, Mp(z3.K(I, z3.BoolVal(False)), UNIT if h == 'HashSet' else None, [], 'u32'))
@model('Vec::len', 'slice::len', 'Vec::is_empty', 'slice::is_empty', 'ExactSizeIterator::len')
def _(eng, st, f, a, fr, e):
    v = eng.deref(st, a[0])
    if isinstance(v, St) and v.name.startswith('it:'):
        n = exact_len(v)
        return one(st, iv(n))
    sl = eng.as_slice(st, a[0])
    n = z3.simplify(sl.n)
    return one(st, iv(n) if f['name'] == 'len' else boolv(n == 0))
def vec_ref(eng, st, v):
    r = eng.chase(st, v)
    if r is None or isinstance(r, Sl): raise Unsup('vector expected')
    x = eng.read(st, r)
    if isinstance(x, LV): x = to_vc(x); eng.write(st, r, x)
    if not isinstance(x, Vc): raise Unsup('vector expected, got %r' % (x,))
    eng.range_fact(st, x.n, 'len')
    return r, x
@model('Vec::push')
def _(eng, st, f, a, fr, e):
    r = eng.chase(st, a[0])
    x = eng.read(st, r)
    if isinstance(x, LV):
        eng.write(st, r, LV(x.items + [a[1]])); return one(st, UNIT)
    r, x = vec_ref(eng, st, a[0])
    st.assume(x.n < ISIZE_MAX)     # memory bound: no vector reaches isize::MAX elements
    y = vc_store(x, x.n, a[1])
    eng.write(st, r, Vc(z3.simplify(x.n + 1), y.tmpl, y.arrs))
    return one(st, UNIT)
@model('Vec::pop')
def _(eng, st, f, a, fr, e):
    r, x = vec_ref(eng, st, a[0])
    out = []
    for s, b in eng.split(st, x.n > 0):
        if not b: out.append((s, NONE)); continue
        eng.write(s, r, Vc(z3.simplify(x.n - 1), x.tmpl, x.arrs))
        out.append((s, some(vc_get(x, z3.simplify(x.n - 1)))))
    return out
@model('Vec::truncate')
def _(eng, st, f, a, fr, e):
    r = eng.chase(st, a[0]); x = eng.read(st, r)
    r, x = vec_ref(eng, st, a[0])
    k = a[1].z
    eng.write(st, r, Vc(z3.If(k < x.n, k, x.n), x.tmpl, x.arrs))
    return one(st, UNIT)
@model('Vec::clear', 'HashMap::clear', 'HashSet::clear')
def _(eng, st, f, a, fr, e):
    r = eng.chase(st, a[0]); x = eng.read(st, r)
    if isinstance(x, Mp): eng.write(st, r, Mp(z3.K(I, z3.BoolVal(False)), x.tmpl, x.arrs, x.kty)); return one(st, UNIT)
    r, x = vec_ref(eng, st, a[0])
    eng.write(st, r, Vc(z3.IntVal(0), x.tmpl, x.arrs))
    return one(st, UNIT)
@model('Vec::insert', 'Vec::remove')
def _(eng, st, f, a, fr, e):
    r, x = vec_ref(eng, st, a[0]); i = a[1].z
    j = T.iv_('vi')
    ins = f['name'] == 'insert'
    eng.oblige(st, z3.And(i >= 0, i <= x.n if ins else i < x.n), '%s position is within the vector' % f['name'], where=where(e))
    if ins:
        t = sym_template(a[2])
        if x.tmpl is None: x = Vc(x.n, t, [fresh('va', z3.ArraySort(I, z.sort())) for z in leaves(t)])
        elif not same(x.tmpl, t): t = coerce(t, x.tmpl)
        ls = leaves(t)
    arrs = []
    for k, A in enumerate(x.arrs):
        Bn = fresh('ins' if ins else 'rem', A.sort())
        if ins:
            st.assume(T.FA(j, z3.Select(Bn, j) == z3.If(j < i, z3.Select(A, j), z3.If(j == i, ls[k], z3.Select(A, j - 1))), [z3.Select(Bn, j)]))
            st.assume(T.FA(j, z3.If(j < i, z3.Select(Bn, j), z3.Select(Bn, j + 1)) == z3.Select(A, j), [z3.Select(A, j)]))
            st.assume(z3.Select(Bn, i) == ls[k])
        else:
            st.assume(T.FA(j, z3.Select(Bn, j) == z3.If(j < i, z3.Select(A, j), z3.Select(A, j + 1)), [z3.Select(Bn, j)]))
        arrs.append(Bn)
    if ins: st.assume(x.n < ISIZE_MAX)
    eng.write(st, r, Vc(z3.simplify(x.n + (1 if ins else -1)), x.tmpl, arrs))
    return one(st, UNIT if ins else vc_get(x, i))
@model('slice::swap', 'Vec::swap_remove')
def _(eng, st, f, a, fr, e):
    if f['name'] == 'swap':
        sl = eng.as_slice(st, a[0]); i, j = a[1].z, a[2].z
        eng.oblige(st, z3.And(i >= 0, i < sl.n, j >= 0, j < sl.n), 'swap positions are within the slice', where=where(e))
        p, q = eng.elem(sl, i), eng.elem(sl, j)
        x, y = eng.read(st, p), eng.read(st, q)
        eng.write(st, p, y); eng.write(st, q, x)
        return one(st, UNIT)
    r, x = vec_ref(eng, st, a[0]); i = a[1].z
    eng.oblige(st, z3.And(i >= 0, i < x.n), 'swap_remove position is within the vector', where=where(e))
    v = vc_get(x, i)
    y = vc_store(x, i, vc_get(x, z3.simplify(x.n - 1)))
    eng.write(st, r, Vc(z3.simplify(x.n - 1), y.tmpl, y.arrs))
    return one(st, v)
@model('slice::reverse')
def _(eng, st, f, a, fr, e):
    sl = eng.as_slice(st, a[0])
    x = to_vc(eng.read(st, sl.ref)); j = T.iv_('rv')
    arrs = []
    for A in x.arrs:
        Bn = fresh('rev', A.sort())
        inr = z3.And(j >= sl.lo, j < sl.lo + sl.n)
        st.assume(T.FA(j, z3.Select(Bn, j) == z3.If(inr, z3.Select(A, 2 * sl.lo + sl.n - 1 - j), z3.Select(A, j)), [z3.Select(Bn, j)]))
        arrs.append(Bn)
    eng.write(st, sl.ref, Vc(x.n, x.tmpl, arrs))
    return one(st, UNIT)
@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def _(eng, st, f, a, fr, e):
    sl = eng.as_slice(st, a[0])
    i = z3.IntVal(0) if 'first' in f['name'] else sl.n - 1
    return [(s, some(eng.elem(sl, i)) if b else NONE) for s, b in eng.split(st, sl.n > 0)]
@model('slice::split_first', 'slice::split_last')
def _(eng, st, f, a, fr, e):
    sl = eng.as_slice(st, a[0])
    fst = f['name'] == 'split_first'
    x = lambda: tup(eng.elem(sl, z3.IntVal(0) if fst else sl.n - 1), Sl(sl.ref, z3.simplify(sl.lo + (1 if fst else 0)), z3.simplify(sl.n - 1)))
    return [(s, some(x()) if b else NONE) for s, b in eng.split(st, sl.n > 0)]
def rng(eng, st, sl, i, wh):
    """Bounds (lo, hi) of a range value; obligations for slicing."""
    k = i.name.split(':')[1]
    g = lambda n: i.f[n].z
    lo = g('start') if k in ('Range', 'RangeFrom', 'RangeInclusive') else z3.IntVal(0)
    if k in ('Range', 'RangeTo'): hi = g('end')
    elif k in ('RangeInclusive', 'RangeToInclusive'): hi = g('end') + 1
    else: hi = sl.n
    return lo, hi
@model('Index::index', 'IndexMut::index_mut')
def _(eng, st, f, a, fr, e):
    i = a[1]
    m = eng.deref(st, a[0])
    if isinstance(m, Mp):
        k = eng.deref(st, i)
        eng.oblige(st, z3.Select(m.dom, k.z), 'map key is present', where=where(e))
        return one(st, eng.chase(st, a[0]).to(('m', k.z)))
    sl = eng.as_slice(st, a[0])
    if isinstance(i, Sc):
        eng.oblige(st, z3.And(i.z >= 0, i.z < sl.n), 'index in bounds', where=where(e))
        return one(st, eng.elem(sl, i.z))
    if isinstance(i, St) and i.name.startswith('range:'):
        lo, hi = rng(eng, st, sl, i, where(e))
        eng.oblige(st, z3.And(lo >= 0, lo <= hi, hi <= sl.n), 'slice range in bounds', where=where(e))
        return one(st, Sl(sl.ref, z3.simplify(sl.lo + lo), z3.simplify(hi - lo)))
    raise Unsup('index by %r' % (i,))
@model('slice::get', 'slice::get_mut')
def _(eng, st, f, a, fr, e):
    sl = eng.as_slice(st, a[0]); i = a[1]
    if isinstance(i, Sc): return [(s, some(eng.elem(sl, i.z)) if b else NONE) for s, b in eng.split(st, z3.And(i.z >= 0, i.z < sl.n))]
    lo, hi = rng(eng, st, sl, i, '')
    return [(s, some(Sl(sl.ref, z3.simplify(sl.lo + lo), z3.simplify(hi - lo))) if b else NONE) for s, b in eng.split(st, z3.And(lo <= hi, hi <= sl.n))]
@model('slice::get_unchecked', 'slice::get_unchecked_mut')
def _(eng, st, f, a, fr, e):
    sl = eng.as_slice(st, a[0]); i = a[1]
    eng.oblige(st, z3.And(i.z >= 0, i.z < sl.n), 'unchecked index in bounds', where=where(e))
    return one(st, eng.elem(sl, i.z))
@model('slice::split_at', 'slice::split_at_mut')
def _(eng, st, f, a, fr, e):
    sl = eng.as_slice(st, a[0]); i = a[1].z
    eng.oblige(st, z3.And(i >= 0, i <= sl.n), 'split position is within the slice', where=where(e))
    return one(st, tup(Sl(sl.ref, sl.lo, i), Sl(sl.ref, z3.simplify(sl.lo + i), z3.simplify(sl.n - i))))
@model('slice::contains')
def _(eng, st, f, a, fr, e):
    sl = eng.as_slice(st, a[0]); x = eng.deref(st, a[1])
    v = eng.read(st, sl.ref)
    if isinstance(v, LV): return one(st, boolv(z3.Or(*[eng.eq(st, y, x) for y in v.items])))
    if isinstance(x, Sc) and x.ty in INTS and len(v.arrs) == 1: return one(st, boolv(T.memb(v.arrs[0], sl.lo, sl.n, x.z)))
    raise Unsup('contains')
@model('slice::partition_point')
def _(eng, st, f, a, fr, e):
    sl = eng.as_slice(st, a[0])
    P = pointwise(eng, st, lambda s, i: eng.call_value(s, a[1], [eng.elem(sl, i)], fr, e), z3.IntVal(0), sl.n)
    if P is None: raise Unsup('partition_point predicate')
    r = fresh('pp', I)
    st.assume(z3.And(r >= 0, r <= sl.n, z3.Implies(r > 0, P(z3.simplify(r - 1)).z), z3.Implies(r < sl.n, z3.Not(P(r).z))))
    return one(st, iv(r))
@model('Vec::extend', 'Extend::extend', 'Vec::append', 'Vec::extend_from_slice')
def _(eng, st, f, a, fr, e):
    r = eng.chase(st, a[0])
    src = a[1]
    if f['name'] == 'append':
        q = eng.chase(st, src); v = eng.read(st, q)
        eng.write(st, q, Vc(z3.IntVal(0), v.tmpl, v.arrs) if isinstance(v, Vc) else LV([]))
        src = v
    cp = f['name'] == 'extend_from_slice'
    out = []
    for s, it in into_iter(eng, st, src, fr, e):
        def body(s2, x):
            if cp or (isinstance(x, Ref) and is_copyable(eng, s2, x, r)): x = eng.deref(s2, x)
            return [(s3, ('next', None)) for s3, _ in REG['Vec::push'](eng, s2, f, [r, x], fr, e)]
        out += [(s2, v if isinstance(v, Abr) else UNIT) for s2, v in drive(eng, s, it, fr, e, 'extend', body)[0]]
    return out
def is_copyable(eng, st, x, r):
    t = eng.read(st, r)
    return isinstance(t, Vc) and t.tmpl is not None and not isinstance(t.tmpl, Ref)
@model('Vec::resize')
def _(eng, st, f, a, fr, e): raise Unsup('resize')
# vec![..]
REG['Box::new_uninit'] = lambda eng, st, f, a, fr, e: one(st, UNIT)
REG['intrinsics::write_box_via_move'] = lambda eng, st, f, a, fr, e: one(st, a[1])
REG['boxed::box_assume_init_into_vec_unsafe'] = ident
REG['box_assume_init_into_vec_unsafe'] = ident
@model('vec::from_elem')
def _(eng, st, f, a, fr, e):
    t = sym_template(a[0]); n = a[1].z
    eng.oblige(st, n <= 2**56, 'capacity does not overflow', where=where(e))
    return one(st, Vc(n, t, [z3.K(I, z) for z in leaves(t)]))

# ------------------------------------------------------------------ maps
def mp_ref(eng, st, v):
    r = eng.chase(st, v)
    m = eng.read(st, r)
    if not isinstance(m, Mp): raise Unsup('map expected')
    return r, m
def mp_set(eng, st, r, m, k, v):
    t = sym_template(v)
    if m.tmpl is None: m = Mp(m.dom, t, [fresh('mv', z3.ArraySort(I, z.sort())) for z in leaves(t)], m.kty)
    eng.write(st, r, Mp(z3.Store(m.dom, k, z3.BoolVal(True)), m.tmpl, [z3.Store(A, k, z) for A, z in zip(m.arrs, leaves(coerce(t, m.tmpl)))], m.kty))
def mkey(eng, st, v):
    k = eng.deref(st, v)
    if not isinstance(k, Sc) or k.z.sort() != I: raise Unsup('map key')
    return k
@model('HashMap::entry', 'BTreeMap::entry')
def _(eng, st, f, a, fr, e):
    r, m = mp_ref(eng, st, a[0])
    return one(st, St('entry', {'m': r, 'k': mkey(eng, st, a[1])}))
@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def _(eng, st, f, a, fr, e):
    r, k = a[0].f['m'], a[0].f['k'].z
    m = eng.read(st, r)
    def put(s, v):
        # insert only when absent, without forking
        m = eng.read(s, r)
        if m.tmpl is None:
            mp_set(eng, s, r, m, k, v)
            return [(s, r.to(('m', k)))]
        t = coerce(sym_template(v), m.tmpl)
        pres = z3.Select(m.dom, k)
        eng.write(s, r, Mp(z3.Store(m.dom, k, z3.BoolVal(True)), m.tmpl, [z3.Store(A, k, z3.If(pres, z3.Select(A, k), z)) for A, z in zip(m.arrs, leaves(t))], m.kty))
        return [(s, r.to(('m', k)))]
    n = f['name']
    if n == 'or_insert': return put(st, a[1])
    if n == 'or_default': return put(st, default_of(eng, st, eng.sub(f['args'][1], fr.tenv)))
    return eng.bind(cv(eng, st, a[1], [], fr, e), put)
@model('Entry::and_modify')
def _(eng, st, f, a, fr, e):
    r, k = a[0].f['m'], a[0].f['k'].z
    m = eng.read(st, r)
    out = []
    if m.tmpl is None: return one(st, a[0])
    for s, b in eng.split(st, z3.Select(m.dom, k)):
        if not b: out.append((s, a[0])); continue
        out += eng.bind(cv(eng, s, a[1], [r.to(('m', k))], fr, e), lambda s2, _: [(s2, a[0])])
    return out
@model('HashMap::get', 'HashMap::get_mut', 'HashMap::contains_key', 'HashSet::contains', 'BTreeMap::get')
def _(eng, st, f, a, fr, e):
    r, m = mp_ref(eng, st, a[0]); k = mkey(eng, st, a[1]).z
    if f['name'] in ('contains_key', 'contains'): return one(st, boolv(z3.Select(m.dom, k)))
    if m.tmpl is None: return one(st, NONE)
    return [(s, some(r.to(('m', k))) if b else NONE) for s, b in eng.split(st, z3.Select(m.dom, k))]
@model('HashMap::insert', 'HashSet::insert', 'BTreeMap::insert')
def _(eng, st, f, a, fr, e):
    r, m = mp_ref(eng, st, a[0]); k = mkey(eng, st, a[1]).z
    if len(a) == 2:
        b = boolv(z3.Not(z3.Select(m.dom, k)))
        eng.write(st, r, Mp(z3.Store(m.dom, k, z3.BoolVal(True)), m.tmpl, m.arrs, m.kty))
        return one(st, b)
    old = NONE
    if m.tmpl is not None:
        old = SEn('Option', z3.If(z3.Select(m.dom, k), 1, 0), {'None': {}, 'Some': {'0': rebuild(m.tmpl, [z3.Select(A, k) for A in m.arrs])}})
    mp_set(eng, st, r, m, k, a[2])
    return one(st, old)
@model('HashMap::is_empty', 'HashMap::len')
def _(eng, st, f, a, fr, e): raise Unsup('map size')

# ------------------------------------------------------------------ iterators
def it_(kind, **f): return St('it:' + kind, f)
def is_it(v): return isinstance(v, St) and v.name.startswith('it:')
def into_iter(eng, st, v, fr, e):
    if is_it(v): return one(st, v)
    if isinstance(v, St) and v.name.startswith('range:'):
        k = v.name.split(':')[1]
        if k == 'Range': return one(st, it_('range', lo=Sc(v.f['start'].z, v.f['start'].ty), hi=Sc(v.f['end'].z, v.f['end'].ty)))
        if k == 'RangeInclusive':
            hi = v.f['end']
            return one(st, it_('range', lo=Sc(v.f['start'].z, hi.ty), hi=Sc(z3.simplify(hi.z + 1), hi.ty)))
        if k == 'RangeFrom': return one(st, it_('from', lo=Sc(v.f['start'].z, v.f['start'].ty)))
        raise Unsup('iteration over ' + k)
    if isinstance(v, (Ref, Sl)):
        r = eng.chase(st, v)
        if isinstance(r, Sl): return one(st, it_('slice', s=r.ref, lo=ix(r.lo), hi=ix(r.lo + r.n)))
        x = eng.read(st, r)
        if is_it(x): return one(st, it_('ref', r=r))
        if isinstance(x, St) and x.name.startswith('range:'):
            for s, it in into_iter(eng, st, x, fr, e): eng.write(s, r, it)
            return one(st, it_('ref', r=r))
        if isinstance(x, (Vc, LV)):
            sl = eng.as_slice(st, r)
            return one(st, it_('slice', s=r, lo=ix(0), hi=ix(sl.n)))
        if isinstance(x, Mp): return one(st, map_iter(eng, st, r, x))
        if isinstance(x, (En, SEn)) and x.name == 'Option':
            return REG['Option::iter'](eng, st, {'name': 'iter'}, [v], fr, e)
        raise Unsup('iteration over %r' % (x,))
    if isinstance(v, (Vc, LV)):
        r = eng.tmp(st, v, 'own')
        sl = eng.as_slice(st, r)
        return one(st, it_('vec', s=r, lo=ix(0), hi=ix(sl.n)))
    if isinstance(v, Mp):
        r = eng.tmp(st, v, 'ownmap')
        it = map_iter(eng, st, r, v)
        return one(st, St(it.name, dict(it.f, own=UNIT)))
    if isinstance(v, (En, SEn)) and v.name == 'Option': return one(st, it_('opt', o=sym_enum(v)))
    raise Unsup('iteration over %r' % (v,))
def map_iter(eng, st, r, m):
    left = fresh('entries', I)
    st.assume(z3.And(left >= 0, left <= ISIZE_MAX))
    return it_('map', m=r, done=Sc(z3.K(I, z3.BoolVal(False)), 'arrbool'), left=Sc(left, 'idx'))
@model('IntoIterator::into_iter')
def _(eng, st, f, a, fr, e): return into_iter(eng, st, a[0], fr, e)
@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'HashMap::iter', 'HashMap::iter_mut')
def _(eng, st, f, a, fr, e):
    r = a[0]
    if not isinstance(r, (Ref, Sl)): r = eng.tmp(st, r)
    return into_iter(eng, st, r, fr, e)
@model('Option::iter', 'Option::iter_mut', 'Option::into_iter')
def _(eng, st, f, a, fr, e):
    if f['name'] == 'into_iter': return into_iter(eng, st, a[0], fr, e)
    return [(s, it_('opt', o=sym_enum(v))) for s, v in REG['Option::as_ref'](eng, st, f, a, fr, e)]
@model('Vec::drain')
def _(eng, st, f, a, fr, e):
    r, x = vec_ref(eng, st, a[0])
    i = a[1]
    if i.name == 'range:RangeFull':
        c = eng.tmp(st, x, 'drained')
        eng.write(st, r, Vc(z3.IntVal(0), x.tmpl, x.arrs))
        return one(st, it_('vec', s=c, lo=ix(0), hi=ix(x.n)))
    if i.name == 'range:RangeFrom':
        k = i.f['start'].z
        eng.oblige(st, k <= x.n, 'drain range in bounds', where=where(e))
        c = eng.tmp(st, x, 'drained')
        eng.write(st, r, Vc(k, x.tmpl, x.arrs))
        return one(st, it_('vec', s=c, lo=ix(k), hi=ix(x.n)))
    raise Unsup('drain')
def adapt(kind, *names):
    def m(eng, st, f, a, fr, e):
        return [(s, it_(kind, it=it, **{n: v for n, v in zip(names, a[1:])})) for s, it in into_iter(eng, st, a[0], fr, e)]
    return m
for n in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'map_while', 'flat_map'): 
    REG['Iterator::' + n] = adapt(n, 'f')
def transparent(eng, st, f, a, fr, e): return into_iter(eng, st, a[0], fr, e)
for n in ('fuse', 'peekable', 'by_ref'): REG['Iterator::' + n] = transparent
REG['Iterator::copied'] = adapt('cloned'); REG['Iterator::cloned'] = adapt('cloned')
@model('Iterator::take_while', 'Iterator::skip_while', 'Iterator::map_while')
def _(eng, st, f, a, fr, e):
    n = f['name']
    return [(s, it_(n, it=it, f=a[1], done=boolv(False))) for s, it in into_iter(eng, st, a[0], fr, e)]
@model('Iterator::enumerate')
def _(eng, st, f, a, fr, e): return [(s, it_('enum', it=it, n=iv(0))) for s, it in into_iter(eng, st, a[0], fr, e)]
@model('Iterator::rev')
def _(eng, st, f, a, fr, e): return [(s, it_('rev', it=it)) for s, it in into_iter(eng, st, a[0], fr, e)]
@model('Iterator::zip', 'iter::zip')
def _(eng, st, f, a, fr, e):
    return [(s2, it_('zip', a=x, b=y)) for s, x in into_iter(eng, st, a[0], fr, e) for s2, y in into_iter(eng, s, a[1], fr, e)]
@model('Iterator::chain')
def _(eng, st, f, a, fr, e):
    return [(s2, it_('chain', a=x, b=y)) for s, x in into_iter(eng, st, a[0], fr, e) for s2, y in into_iter(eng, s, a[1], fr, e)]
@model('slice::windows', 'slice::chunks')
def _(eng, st, f, a, fr, e):
    if f['name'] == 'chunks': raise Unsup('chunks')
    sl = eng.as_slice(st, a[0]); w = a[1].z
    eng.oblige(st, w > 0, 'window size is not zero', where=where(e))
    return one(st, it_('windows', s=sl.ref, lo=ix(sl.lo), hi=ix(z3.If(sl.n >= w, sl.lo + sl.n - w + 1, sl.lo)), w=ix(w)))
@model('iter::once')
def _(eng, st, f, a, fr, e): return into_iter(eng, st, LV([a[0]]), fr, e)
@model('iter::empty')
def _(eng, st, f, a, fr, e): return into_iter(eng, st, LV([]), fr, e)
@model('iter::repeat')
def _(eng, st, f, a, fr, e): return one(st, it_('repeat', v=a[0]))
@model('Iterator::skip', 'Iterator::take', 'Iterator::step_by')
def _(eng, st, f, a, fr, e):
    out = []
    for s, it in into_iter(eng, st, a[0], fr, e):
        n = a[1].z
        if f['name'] == 'step_by': raise Unsup('step_by')
        out += skip(eng, s, it, n) if f['name'] == 'skip' else take(eng, s, it, n)
    return out
CUR = ('it:slice', 'it:vec', 'it:range', 'it:windows')
def skip(eng, st, it, n):
    if it.name in CUR:
        lo, hi = it.f['lo'], it.f['hi']
        return one(st, it.upd('lo', Sc(z3.simplify(z3.If(hi.z - lo.z > n, lo.z + n, z3.If(hi.z > lo.z, hi.z, lo.z))), lo.ty)))
    if it.name in ('it:cloned', 'it:map') and exact(it):    # skipping a map still calls the closure; only pure ones are exact
        if it.name == 'it:cloned': return [(s, it.upd('it', x)) for s, x in skip(eng, st, it.f['it'], n)]
    if it.name == 'it:enum' and exact(it.f['it']):
        ln = exact_len(it.f['it'])
        d = z3.simplify(z3.If(ln > n, n, ln))
        return [(s, St('it:enum', {'it': x, 'n': Sc(z3.simplify(it.f['n'].z + d), 'usize')})) for s, x in skip(eng, st, it.f['it'], n)]
    if it.name == 'it:zip' and exact(it):
        return [(s2, it_('zip', a=x, b=y)) for s, x in skip(eng, st, it.f['a'], n) for s2, y in skip(eng, s, it.f['b'], n)]
    return one(st, it_('skip', it=it, n=Sc(n, 'usize')))
def take(eng, st, it, n):
    if it.name in CUR:
        lo, hi = it.f['lo'], it.f['hi']
        return one(st, it.upd('hi', Sc(z3.simplify(z3.If(hi.z - lo.z > n, lo.z + n, hi.z)), hi.ty)))
    if it.name == 'it:from':
        return one(st, it_('range', lo=it.f['lo'], hi=Sc(it.f['lo'].z + n, it.f['lo'].ty)))
    if it.name in ('it:enum', 'it:cloned', 'it:map'): return [(s, it.upd('it', x)) for s, x in take(eng, st, it.f['it'], n)]
    if it.name == 'it:zip': return [(s, it.upd('a', x)) for s, x in take(eng, st, it.f['a'], n)] if exact(it.f['a']) else one(st, it_('take', it=it, n=Sc(n, 'usize')))
    return one(st, it_('take', it=it, n=Sc(n, 'usize')))
def exact(it):
    n = it.name
    if n in CUR: return True
    if n in ('it:enum', 'it:cloned'): return exact(it.f['it'])
    if n == 'it:map': return exact(it.f['it'])
    if n == 'it:zip': return (exact(it.f['a']) or it.f['a'].name == 'it:from') and (exact(it.f['b']) or it.f['b'].name == 'it:from')
    return False
def exact_len(it):
    n = it.name
    if n in CUR: return z3.simplify(z3.If(it.f['hi'].z > it.f['lo'].z, it.f['hi'].z - it.f['lo'].z, 0))
    if n in ('it:enum', 'it:cloned', 'it:map', 'it:rev'): return exact_len(it.f['it'])
    if n == 'it:zip':
        a, b = it.f['a'], it.f['b']
        if a.name == 'it:from': return exact_len(b)
        if b.name == 'it:from': return exact_len(a)
        a, b = exact_len(a), exact_len(b)
        return z3.simplify(z3.If(a < b, a, b))
    raise Unsup('length of ' + n)

def step(eng, st, it, fr, e, pure=False):
    """[(state, new iterator, item or None at the end)]; item may be Abr."""
    n = it.name
    if n in CUR:
        lo, hi = it.f['lo'], it.f['hi']
        out = []
        for s, b in eng.split(st, lo.z < hi.z):
            if not b: out.append((s, it, None)); continue
            if n == 'it:range': v = Sc(lo.z, lo.ty)
            elif n == 'it:windows': v = Sl(it.f['s'], lo.z, it.f['w'].z)
            else:
                v = it.f['s'].to(('i', lo.z))
                if n == 'it:vec': v = eng.read(s, v)
            out.append((s, it.upd('lo', Sc(z3.simplify(lo.z + 1), lo.ty)), v))
        return out
    if n == 'it:from':
        lo = it.f['lo']
        if not pure: eng.oblige(st, lo.z + 1 <= INTS[lo.ty][1], 'arithmetic does not overflow', where=where(e))
        return [(st, it.upd('lo', Sc(z3.simplify(lo.z + 1), lo.ty)), lo)]
    if n == 'it:repeat': return [(st, it, it.f['v'])]
    if n == 'it:opt':
        out = []
        for s, var, d in variants(eng, st, it.f['o']):
            if var == 'None': out.append((s, it, None))
            else:
                o = SEn('Option', z3.IntVal(0), it.f['o'].f)
                out.append((s, it.upd('o', o), d['0']))
        return out
    if n == 'it:ref':
        r = it.f['r']; out = []
        for s, i2, v in step(eng, st, eng.read(st, r), fr, e, pure):
            if not pure: eng.write(s, r, i2)
            out.append((s, it, v))
        return out
    if n == 'it:map_' : raise Unsup('x')
    if n == 'it:map' and 'm' in it.f:
        m = eng.read(st, it.f['m'])
        out = []
        left, done = it.f['left'], it.f['done']
        j = T.iv_('mk')
        end = st.fork().assume(left.z == 0)
        end.assume(T.FA(j, z3.Implies(z3.Select(m.dom, j), z3.Select(done.z, j)), [z3.Select(m.dom, j)]))
        out.append((end, it, None))
        if m.tmpl is not None:
            s = st.fork().assume(left.z > 0)
            k = fresh('mkey', I)
            s.assume(z3.And(z3.Select(m.dom, k), z3.Not(z3.Select(done.z, k))))
            eng.range_fact(s, k, m.kty)
            i2 = St(it.name, dict(it.f, done=Sc(z3.Store(done.z, k, z3.BoolVal(True)), 'arrbool'), left=Sc(left.z - 1, 'idx')))
            vr = it.f['m'].to(('m', k))
            kv = Sc(k, m.kty)
            if 'own' in it.f: item = tup(kv, eng.read(s, vr))
            else: item = tup(eng.tmp(s, kv), vr)
            out.append((s, i2, item))
        return out
    if n == 'it:enum':
        out = []
        for s, i2, v in step(eng, st, it.f['it'], fr, e, pure):
            if v is None or isinstance(v, Abr): out.append((s, it.upd('it', i2), v)); continue
            k = it.f['n']
            st.assume(k.z < INTS['usize'][1])
            out.append((s, St('it:enum', {'it': i2, 'n': Sc(z3.simplify(k.z + 1), 'usize')}), tup(Sc(k.z, 'usize'), v)))
        return out
    if n == 'it:zip':
        out = []
        for s, i2, v in step(eng, st, it.f['a'], fr, e, pure):
            if v is None or isinstance(v, Abr): out.append((s, it.upd('a', i2), v)); continue
            for s2, j2, w in step(eng, s, it.f['b'], fr, e, pure):
                ni = it_('zip', a=i2, b=j2)
                out.append((s2, ni, w if w is None or isinstance(w, Abr) else tup(v, w)))
        return out
    if n == 'it:cloned':
        return [(s, it.upd('it', i2), v if v is None or isinstance(v, Abr) else eng.deref(s, v)) for s, i2, v in step(eng, st, it.f['it'], fr, e, pure)]
    if n == 'it:rev': return step_back(eng, st, it, fr, e)
    if n == 'it:chain':
        out = []
        for s, i2, v in step(eng, st, it.f['a'], fr, e, pure):
            if v is None: out += [(s2, it_('chain', a=i2, b=j2), w) for s2, j2, w in step(eng, s, it.f['b'], fr, e, pure)]
            else: out.append((s, it.upd('a', i2), v))
        return out
    if n == 'it:take':
        out = []; k = it.f['n']
        for s, b in eng.split(st, k.z > 0):
            if not b: out.append((s, it, None)); continue
            out += [(s2, it_('take', it=i2, n=Sc(z3.simplify(k.z - 1), 'usize')), v) for s2, i2, v in step(eng, s, it.f['it'], fr, e, pure)]
        return out
    if n == 'it:skip':
        k = z3.simplify(it.f['n'].z)
        if not z3.is_int_value(k) or k.as_long() > 8: raise Unsup('lazy skip')
        cur = [(st, it.f['it'], UNIT)]
        for _ in range(k.as_long()):
            nx = []
            for s, i2, v in cur:
                if v is None: nx.append((s, i2, v))
                else: nx += step(eng, s, i2, fr, e, pure)
            cur = nx
        out = []
        for s, i2, v in cur:
            if v is None: out.append((s, it_('skip', it=i2, n=iv(0)), None))
            else: out += [(s2, it_('skip', it=j2, n=iv(0)), w) for s2, j2, w in step(eng, s, i2, fr, e, pure)]
        return out
    if n in ('it:map', 'it:inspect'):
        out = []
        for s, i2, v in step(eng, st, it.f['it'], fr, e, pure):
            if v is None or isinstance(v, Abr): out.append((s, it.upd('it', i2), v)); continue
            if pure:
                # A peeked item is computed again by the following next.  Both computations agree: the closure has no effect
                # (checked here) and what it borrows cannot change while the iterator holds the borrow.
                if n != 'it:map': raise Unsup('peek at an inspected iterator')
                for s2, w in cv(eng, s, it.f['f'], [v], fr, e):
                    if isinstance(w, Abr): raise Unsup('peek at a closure that leaves early')
                    for c, x in s.store.items():
                        y = s2.store.get(c)
                        if y is not x and (y is None or not same(x, y) or any(not p.eq(q) for p, q in zip(leaves(x), leaves(y)))): raise Unsup('peek at a closure with effects')
                    out.append((s2, it.upd('it', i2), w))
                continue
            arg = v if n == 'it:map' else eng.tmp(s, v)
            out += [(s2, it.upd('it', i2), w if n == 'it:map' or isinstance(w, Abr) else v) for s2, w in cv(eng, s, it.f['f'], [arg], fr, e)]
        return out
    if n in ('it:take_while', 'it:map_while'):
        out = []
        for s0, d in eng.split(st, it.f['done'].z):
            if d: out.append((s0, it, None)); continue
            for s, i2, v in step(eng, s0, it.f['it'], fr, e, pure):
                ni = it.upd('it', i2)
                if v is None or isinstance(v, Abr): out.append((s, ni, v)); continue
                if n == 'it:take_while':
                    for s2, w in cv(eng, s, it.f['f'], [eng.tmp(s, v)], fr, e):
                        if isinstance(w, Abr): out.append((s2, ni, w)); continue
                        for s3, b in eng.split(s2, w.z): out.append((s3, ni, v) if b else (s3, ni.upd('done', boolv(True)), None))
                else:
                    for s2, w in cv(eng, s, it.f['f'], [v], fr, e):
                        for s3, var, dd in variants(eng, s2, w): out.append((s3, ni, dd['0']) if var == 'Some' else (s3, ni, None))
        return out
    if n in ('it:filter', 'it:filter_map', 'it:skip_while', 'it:flat_map'): raise Unsup('stepping a ' + n)
    raise Unsup('iterator ' + n)
def step_back(eng, st, it, fr, e):
    """Step of rev(it)."""
    b = it.f['it']
    if b.name in CUR:
        lo, hi = b.f['lo'], b.f['hi']; out = []
        for s, c in eng.split(st, lo.z < hi.z):
            if not c: out.append((s, it, None)); continue
            k = z3.simplify(hi.z - 1)
            if b.name == 'it:range': v = Sc(k, lo.ty)
            elif b.name == 'it:windows': v = Sl(b.f['s'], k, b.f['w'].z)
            else:
                v = b.f['s'].to(('i', k))
                if b.name == 'it:vec': v = eng.read(s, v)
            out.append((s, it.upd('it', b.upd('hi', Sc(k, hi.ty))), v))
        return out
    if b.name == 'it:enum' and exact(b):
        out = []
        ln = exact_len(b)
        for s, i2, v in step_back(eng, st, it_('rev', it=b.f['it']), fr, e):
            ni = it.upd('it', b.upd('it', i2.f['it']))
            out.append((s, ni, v if v is None else tup(Sc(z3.simplify(b.f['n'].z + ln - 1), 'usize'), v)))
        return out
    if b.name == 'it:cloned':
        return [(s, it.upd('it', b.upd('it', i2.f['it'])), v if v is None else eng.deref(s, v)) for s, i2, v in step_back(eng, st, it_('rev', it=b.f['it']), fr, e)]
    if b.name == 'it:map' and 'm' not in b.f:
        out = []
        for s, i2, v in step_back(eng, st, it_('rev', it=b.f['it']), fr, e):
            ni = it.upd('it', b.upd('it', i2.f['it']))
            if v is None: out.append((s, ni, None)); continue
            out += [(s2, ni, w) for s2, w in cv(eng, s, b.f['f'], [v], fr, e)]
        return out
    raise Unsup('reverse of ' + b.name)

def fstep(eng, st, it, fr, e):
    """Like step, but filters yield [(state, it, item, keep)]: keep False means the item was skipped."""
    if it.name == 'it:filter':
        out = []
        for s, i2, v, k in fstep(eng, st, it.f['it'], fr, e):
            ni = it.upd('it', i2)
            if v is None or not k or isinstance(v, Abr): out.append((s, ni, v, k)); continue
            for s2, w in cv(eng, s, it.f['f'], [eng.tmp(s, v)], fr, e):
                if isinstance(w, Abr): out.append((s2, ni, w, True)); continue
                for s3, b in eng.split(s2, w.z): out.append((s3, ni, v, b))
        return out
    if it.name == 'it:filter_map':
        out = []
        for s, i2, v, k in fstep(eng, st, it.f['it'], fr, e):
            ni = it.upd('it', i2)
            if v is None or not k or isinstance(v, Abr): out.append((s, ni, v, k)); continue
            for s2, w in cv(eng, s, it.f['f'], [v], fr, e):
                if isinstance(w, Abr): out.append((s2, ni, w, True)); continue
                for s3, var, d in variants(eng, s2, w): out.append((s3, ni, d['0'] if var == 'Some' else UNIT, var == 'Some'))
        return out
    if it.name == 'it:skip_while':
        out = []
        for s, i2, v, k in fstep(eng, st, it.f['it'], fr, e):
            ni = it.upd('it', i2)
            if v is None or not k or isinstance(v, Abr): out.append((s, ni, v, k)); continue
            for s0, d in eng.split(s, it.f['done'].z):
                if d: out.append((s0, ni, v, True)); continue
                for s2, w in cv(eng, s0, it.f['f'], [eng.tmp(s0, v)], fr, e):
                    for s3, b in eng.split(s2, w.z): out.append((s3, ni, v, False) if b else (s3, ni.upd('done', boolv(True)), v, True))
        return out
    def over(kind, key='it'):
        return fstep(eng, st, it.f[key], fr, e)
    if it.name in ('it:map', 'it:inspect') and 'm' not in it.f and deep_filter(it):
        out = []
        for s, i2, v, k in over('map'):
            ni = it.upd('it', i2)
            if v is None or not k or isinstance(v, Abr): out.append((s, ni, v, k)); continue
            out += [(s2, ni, w, True) for s2, w in cv(eng, s, it.f['f'], [v], fr, e)]
        return out
    if it.name == 'it:enum' and deep_filter(it):
        out = []
        for s, i2, v, k in over('enum'):
            n = it.f['n']
            if v is None or not k or isinstance(v, Abr): out.append((s, it.upd('it', i2), v, k)); continue
            out.append((s, St('it:enum', {'it': i2, 'n': Sc(z3.simplify(n.z + 1), 'usize')}), tup(Sc(n.z, 'usize'), v), True))
        return out
    if it.name == 'it:cloned' and deep_filter(it):
        return [(s, it.upd('it', i2), eng.deref(s, v) if v is not None and k and not isinstance(v, Abr) else v, k) for s, i2, v, k in over('cloned')]
    if it.name == 'it:take' and deep_filter(it):
        out = []
        for s0, b in eng.split(st, it.f['n'].z > 0):
            if not b: out.append((s0, it, None, True)); continue
            for s, i2, v, k in fstep(eng, s0, it.f['it'], fr, e):
                out.append((s, it_('take', it=i2, n=Sc(z3.simplify(it.f['n'].z - 1), 'usize') if k and v is not None else it.f['n']), v, k))
        return out
    if it.name == 'it:take_while' and deep_filter(it):
        out = []
        for s0, d in eng.split(st, it.f['done'].z):
            if d: out.append((s0, it, None, True)); continue
            for s, i2, v, k in fstep(eng, s0, it.f['it'], fr, e):
                ni = it.upd('it', i2)
                if v is None or not k: out.append((s, ni, v, k)); continue
                for s2, w in cv(eng, s, it.f['f'], [eng.tmp(s, v)], fr, e):
                    for s3, b in eng.split(s2, w.z): out.append((s3, ni, v, True) if b else (s3, ni.upd('done', boolv(True)), None, True))
        return out
    if it.name == 'it:ref' and deep_filter(eng.read(st, it.f['r'])):
        out = []
        for s, i2, v, k in fstep(eng, st, eng.read(st, it.f['r']), fr, e):
            eng.write(s, it.f['r'], i2); out.append((s, it, v, k))
        return out
    return [(s, i2, v, True) for s, i2, v in step(eng, st, it, fr, e)]
def deep_filter(it):
    if it.name in ('it:filter', 'it:filter_map', 'it:skip_while'): return True
    return is_it(it.f.get('it')) and deep_filter(it.f['it'])

def concrete(it):
    if it.name in CUR:
        return z3.is_int_value(z3.simplify(it.f['lo'].z)) and z3.is_int_value(z3.simplify(it.f['hi'].z)) and z3.simplify(it.f['hi'].z - it.f['lo'].z).as_long() <= 40
    if it.name == 'it:zip': return concrete(it.f['a']) or concrete(it.f['b'])
    if it.name == 'it:chain': return concrete(it.f['a']) and concrete(it.f['b'])
    if it.name in ('it:take', 'it:skip', 'it:enum', 'it:cloned', 'it:map', 'it:filter', 'it:rev', 'it:inspect', 'it:filter_map', 'it:take_while', 'it:skip_while', 'it:map_while') and 'it' in it.f: return concrete(it.f['it'])
    if it.name == 'it:opt': return True
    return False

def drive(eng, st, it, fr, e, name, body, wb=None):
    """Run body on every item.  body(state, item) -> [(state, ('next', None) | ('exit', v) or Abr)].
    Returns ([(state, v)], cell): v None when the iterator was exhausted.  wb: reference to write the iterator back to."""
    c = eng.tmp(st, it, 'it').cell
    def lbody(s):
        out = []
        for s2, i2, v, keep in fstep(eng, s, s.store[c], fr, e):
            s2.store[c] = i2
            if v is None: out.append((s2, 'exit', None))
            elif isinstance(v, Abr): out.append((s2, 'exit', v))
            elif not keep: out.append((s2, 'next', None))
            else:
                for s3, r in body(s2, v):
                    if isinstance(r, Abr): out.append((s3, 'exit', r))
                    elif r[0] == 'next': out.append((s3, 'next', None))
                    else: out.append((s3, 'exit', r[1]))
        return out
    if concrete(it):
        outs = []; pend = [st]
        for _ in range(60):
            nx = []
            for s in pend:
                for s2, k, v in lbody(s): (outs.append((s2, v)) if k == 'exit' else nx.append(s2))
            pend = nx
            if not pend: break
        else: raise Unsup('unrolling')
    else:
        key = '%s#%s@%s' % (fr.fn, name, loopid(e))
        outs = eng.loop(st, lbody, key, fr, measured=finite_it(it))
    if wb is not None:
        for s, v in outs: eng.write(s, wb, s.store[c])
    return outs, c
def finite_it(it):
    if it.name in ('it:from', 'it:repeat'): return False
    if it.name == 'it:zip': return finite_it(it.f['a']) or finite_it(it.f['b'])
    if it.name == 'it:ref': return False
    if 'it' in it.f and is_it(it.f['it']) and it.name != 'it:take': return finite_it(it.f['it'])
    return True
def loopid(e):
    sp = (e or {}).get('sp', '')
    return re.sub(r'^.*?([\w]+\.rs)', r'\1', sp)
def selfit(eng, st, v, fr, e):
    """Iterator for a &mut self method: (iterator value, write-back reference)."""
    if is_it(v): return v, None
    r = eng.chase(st, v)
    x = eng.read(st, r)
    if is_it(x):
        while x.name == 'it:ref':
            r = x.f['r']; x = eng.read(st, r)
        return x, r
    if isinstance(x, St) and x.name.startswith('range:'):
        (s, it), = into_iter(eng, st, x, fr, e)
        eng.write(st, r, it)
        return it, r
    raise Unsup('iterator expected, got %r' % (x,))
def peel(eng, st, v, fr, e):
    """Iterator for a by-value method."""
    (s, it), = into_iter(eng, st, v, fr, e)
    if it.name == 'it:ref': return eng.read(st, it.f['r']), it.f['r']
    return it, None

@model('Iterator::next', 'DoubleEndedIterator::next_back')
def _(eng, st, f, a, fr, e):
    it, r = selfit(eng, st, a[0], fr, e)
    back = f['name'] == 'next_back'
    if deep_filter(it):
        return [(s, v if isinstance(v, Abr) else (NONE if v is None else some(v))) for s, v in drive(eng, st, it, fr, e, 'next', lambda s, x: [(s, ('exit', x))], r)[0]]
    out = []
    steps = step(eng, st, it_('rev', it=it), fr, e) if back else step(eng, st, it, fr, e)
    for s, i2, v in steps:
        if r is not None: eng.write(s, r, i2.f['it'] if back else i2)
        out.append((s, v if isinstance(v, Abr) else (NONE if v is None else some(v))))
    return out
@model('Peekable::peek', 'Peekable::peek_mut')
def _(eng, st, f, a, fr, e):
    it, r = selfit(eng, st, a[0], fr, e)
    return [(s, NONE if v is None else some(eng.tmp(s, v))) for s, i2, v in step(eng, st, it, fr, e, pure=True)]
@model('Iterator::nth')
def _(eng, st, f, a, fr, e):
    it, r = selfit(eng, st, a[0], fr, e); out = []
    for s, i1 in skip(eng, st, it, a[1].z):
        for s2, i2, v in step(eng, s, i1, fr, e):
            if r is not None: eng.write(s2, r, i2)
            out.append((s2, NONE if v is None else some(v)))
    return out
@model('Iterator::size_hint')
def _(eng, st, f, a, fr, e):
    it, r = selfit(eng, st, a[0], fr, e)
    lo = fresh('hint_lo', I); hi = fresh('hint_hi', I); tag = fresh('hint_tag', I)
    st.assume(z3.And(lo >= 0, hi >= 0, hi <= INTS['usize'][1], z3.Or(tag == 0, tag == 1)))
    if exact(it):
        n = exact_len(it)
        st.assume(z3.And(lo <= n, z3.Implies(tag == 1, hi >= n)))     # an honest size hint
    else: st.assume(lo <= 2**32)
    return one(st, tup(Sc(lo, 'usize'), SEn('Option', tag, {'None': {}, 'Some': {'0': Sc(hi, 'usize')}})))
@model('Iterator::for_each')
def _(eng, st, f, a, fr, e):
    it, r = peel(eng, st, a[0], fr, e)
    outs, _ = drive(eng, st, it, fr, e, 'for_each', lambda s, x: [(s2, v if isinstance(v, Abr) else ('next', None)) for s2, v in cv(eng, s, a[1], [x], fr, e)], r)
    return [(s, v if isinstance(v, Abr) else UNIT) for s, v in outs]
@model('Iterator::try_for_each')
def _(eng, st, f, a, fr, e):
    it, r = selfit(eng, st, a[0], fr, e)
    def body(s, x):
        out = []
        for s2, v in cv(eng, s, a[1], [x], fr, e):
            if isinstance(v, Abr): out.append((s2, v)); continue
            for s3, var, d in variants(eng, s2, v):
                if var in ('Ok', 'Some', 'Continue'): out.append((s3, ('next', None)))
                else: out.append((s3, ('exit', En(v.name, var, d or {}))))
        return out
    outs, _ = drive(eng, st, it, fr, e, 'try_for_each', body, r)
    t = eng.sub(e['ty'], fr.tenv)
    nm = t['p'].split('::')[-1]
    good = En(nm, {'Result': 'Ok', 'Option': 'Some', 'ControlFlow': 'Continue'}[nm], {'0': UNIT})
    return [(s, good if v is None else v) for s, v in outs]
@model('Iterator::fold')
def _(eng, st, f, a, fr, e):
    it, r = peel(eng, st, a[0], fr, e)
    acc = eng.tmp(st, a[1], 'acc').cell
    def body(s, x):
        out = []
        for s2, v in cv(eng, s, a[2], [s.store[acc], x], fr, e):
            if isinstance(v, Abr): out.append((s2, v)); continue
            s2.store[acc] = v
            out.append((s2, ('next', None)))
        return out
    outs, _ = drive(eng, st, it, fr, e, 'fold', body, r)
    return [(s, v if isinstance(v, Abr) else s.store[acc]) for s, v in outs]
@model('Iterator::try_fold')
def _(eng, st, f, a, fr, e):
    it, r = selfit(eng, st, a[0], fr, e)
    acc = eng.tmp(st, a[1], 'acc').cell
    t = eng.sub(e['ty'], fr.tenv)
    nm = t['p'].split('::')[-1]
    good = {'Result': 'Ok', 'Option': 'Some', 'ControlFlow': 'Continue'}[nm]
    def body(s, x):
        out = []
        for s2, v in cv(eng, s, a[2], [s.store[acc], x], fr, e):
            if isinstance(v, Abr): out.append((s2, v)); continue
            for s3, var, d in variants(eng, s2, v):
                if var == good:
                    s3.store[acc] = d.get('0', UNIT); out.append((s3, ('next', None)))
                else: out.append((s3, ('exit', En(nm, var, d or {}))))
        return out
    outs, _ = drive(eng, st, it, fr, e, 'try_fold', body, r)
    return [(s, En(nm, good, {'0': s.store[acc]}) if v is None else v) for s, v in outs]
@model('Iterator::find', 'Iterator::position', 'Iterator::any', 'Iterator::all', 'Iterator::find_map')
def _(eng, st, f, a, fr, e):
    it, r = selfit(eng, st, a[0], fr, e); n = f['name']
    if n in ('any', 'all') and r is None or n in ('any', 'all'):
        m = member_query(eng, st, it, a[1], fr, e, n)
        if m is not None: return one(st, boolv(m))
    cnt = eng.tmp(st, iv(0), 'pos').cell if n == 'position' else None
    def body(s, x):
        out = []
        arg = eng.tmp(s, x) if n == 'find' else x
        for s2, v in cv(eng, s, a[1], [arg], fr, e):
            if isinstance(v, Abr): out.append((s2, v)); continue
            if n == 'find_map':
                for s3, var, d in variants(eng, s2, v): out.append((s3, ('exit', some(d['0'])) if var == 'Some' else ('next', None)))
                continue
            for s3, b in eng.split(s2, v.z):
                if n == 'all': b = not b
                if b: out.append((s3, ('exit', {'find': lambda: some(x), 'any': lambda: boolv(True), 'all': lambda: boolv(False), 'position': lambda: some(s3.store[cnt])}[n]())))
                else:
                    if cnt: s3.store[cnt] = iv(z3.simplify(s3.store[cnt].z + 1))
                    out.append((s3, ('next', None)))
        return out
    outs, _ = drive(eng, st, it, fr, e, n, body, r)
    end = {'any': boolv(False), 'all': boolv(True)}.get(n, NONE)
    return [(s, end if v is None else v) for s, v in outs]
def member_query(eng, st, it, clo, fr, e, n):
    """any(|x| *x == k) over a slice of integers is the membership predicate."""
    base = it.f['it'] if it.name == 'it:cloned' else it
    if base.name != 'it:slice': return None
    v = eng.read(st, base.f['s'])
    if not isinstance(v, Vc) or v.tmpl is None or not isinstance(v.tmpl, Sc) or v.tmpl.ty not in INTS: return None
    lo, hi = base.f['lo'].z, base.f['hi'].z
    P = pointwise(eng, st, lambda s, i: cv(eng, s, clo, [eng.deref(s, base.f['s'].to(('i', i))) if it.name == 'it:cloned' else base.f['s'].to(('i', i))], fr, e), lo, hi)
    if P is None: return None
    probe = z3.Int('probe!idx')
    t = P(probe)
    t = z3.simplify(t.z if n == 'any' else z3.Not(t.z))
    el = z3.Select(v.arrs[0], probe)
    if z3.is_eq(t):
        x, y = t.arg(0), t.arg(1)
        if y.eq(el): x, y = y, x
        if x.eq(el) and not mentions(y, probe):
            m = T.memb(v.arrs[0], lo, z3.simplify(hi - lo), y)
            return m if n == 'any' else z3.Not(m)
    return None
def mentions(t, v):
    if t.eq(v): return True
    return any(mentions(c, v) for c in t.children())
@model('Iterator::count', 'Iterator::last', 'Iterator::sum', 'Iterator::product', 'Iterator::max', 'Iterator::min', 'Iterator::reduce')
def _(eng, st, f, a, fr, e):
    it, r = peel(eng, st, a[0], fr, e); n = f['name']
    if n == 'count':
        if exact(it) and it.name != 'it:map': return one(st, iv(exact_len(it)))
        acc = eng.tmp(st, iv(0), 'acc').cell
        def body(s, x):
            s.assume(s.store[acc].z < INTS['usize'][1])
            s.store[acc] = iv(z3.simplify(s.store[acc].z + 1)); return [(s, ('next', None))]
    elif n == 'sum':
        t = eng.sub(e['ty'], fr.tenv)
        if t.get('n') == 'f32': z0 = Sc(fconst(-0.0), 'f32')
        elif t.get('n') in INTS: z0 = iv(0, t['n'])
        else: raise Unsup('sum')
        acc = eng.tmp(st, z0, 'acc').cell
        def body(s, x):
            out = []
            for s2, v in eng.binop(s, 'Add', s.store[acc], eng.deref(s, x), where(e)):
                s2.store[acc] = v; out.append((s2, ('next', None)))
            return out
    elif n in ('max', 'min'):
        acc = eng.tmp(st, NONE, 'acc').cell
        def body(s, x):
            out = []
            for s2, var, d in variants(eng, s, s.store[acc]):
                if var == 'None': s2.store[acc] = some(x)
                else:
                    p, q = eng.deref(s2, d['0']), eng.deref(s2, x)
                    if not (isinstance(q, Sc) and q.ty in INTS): raise Unsup('max')
                    c = q.z >= p.z if n == 'max' else q.z < p.z
                    if isinstance(x, Sc): s2.store[acc] = some(Sc(z3.If(c, q.z, p.z), q.ty))
                    else: raise Unsup('max of references')
                out.append((s2, ('next', None)))
            return out
    else: raise Unsup('Iterator::' + n)
    outs, _ = drive(eng, st, it, fr, e, n, body, r)
    return [(s, v if isinstance(v, Abr) else s.store[acc]) for s, v in outs]
@model('Iterator::collect', 'FromIterator::from_iter')
def _(eng, st, f, a, fr, e):
    it, r = peel(eng, st, a[0], fr, e)
    t = eng.sub(e['ty'], fr.tenv)
    l = t['p'].split('::')[-1] if t['k'] == 'adt' else ''
    wrap = None
    if l in ('Result', 'Option'):
        wrap = l; t = t['args'][0]; l = t['p'].split('::')[-1] if t['k'] == 'adt' else ''
    if l in ('HashMap', 'HashSet', 'BTreeMap'):
        acc = eng.tmp(st, Mp(z3.K(I, z3.BoolVal(False)), UNIT if l == 'HashSet' else None, [], 'u32'), 'coll')
        def push(s, x):
            if l == 'HashSet': return REG['HashSet::insert'](eng, s, {'name': 'insert'}, [acc, x], fr, e)
            return REG['HashMap::insert'](eng, s, {'name': 'insert'}, [acc, x.f['0'], x.f['1']], fr, e)
    elif l in ('Vec', 'Box'):
        acc = eng.tmp(st, LV([]) if concrete(it) else Vc(z3.IntVal(0), None, []), 'coll')
        if concrete(it) is False and it.name == 'it:vec' and not wrap:
            v = eng.read(st, it.f['s'])
            if z3.is_int_value(it.f['lo'].z) and it.f['lo'].z.as_long() == 0 and isinstance(v, Vc): return one(st, Vc(it.f['hi'].z, v.tmpl, v.arrs))
        def push(s, x): return REG['Vec::push'](eng, s, f, [acc, x], fr, e)
    else: raise Unsup('collect into ' + l)
    def body(s, x):
        if wrap:
            out = []
            for s2, var, d in variants(eng, s, x):
                if var in ('Ok', 'Some'): out += [(s3, ('next', None)) for s3, _ in push(s2, d['0'])]
                else: out.append((s2, ('exit', En(wrap, var, d or {}))))
            return out
        return [(s2, ('next', None)) for s2, _ in push(s, x)]
    outs, _ = drive(eng, st, it, fr, e, 'collect', body, r)
    good = lambda s: s.store[acc.cell] if not wrap else En(wrap, 'Ok' if wrap == 'Result' else 'Some', {'0': s.store[acc.cell]})
    return [(s, good(s) if v is None else v) for s, v in outs]
REG['HashSet::from_iter'] = REG['Iterator::collect']

# ------------------------------------------------------------------ evaluation of a pure closure at an arbitrary index
def consts(t, acc, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen: return acc
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(t.decl().name())
    for c in t.children(): consts(c, acc, seen)
    return acc
def pointwise(eng, st, fn, lo, hi):
    """fn(state, i) evaluated at an arbitrary i in [lo, hi) -> function of the index, or None when it is not a pure function."""
    i = fresh('pi', I)
    s0 = st.fork().assume(z3.And(i >= lo, i < hi))
    n0 = ctr()
    cells = set(st.store)
    rs = fn(s0, i)
    if not rs: return None
    if any(isinstance(v, Abr) for _, v in rs): return None
    for s, _ in rs:
        for c in cells:
            if s.store[c] is not st.store[c]:
                if not same(s.store[c], st.store[c]) or any(not p.eq(q) for p, q in zip(leaves(s.store[c]), leaves(st.store[c]))): return None
    if not all(same(rs[0][1], v) for _, v in rs): return None
    res = None
    base = rs[-1][1]
    ls = leaves(base)
    for s, v in reversed(rs[:-1]):
        ex = eng.extra(s.pc, s0.pc)
        if ex is None: return None
        c = z3.And(*[x for x in ex if not T.has_quant(x)]) if ex else z3.BoolVal(True)
        if any(T.has_quant(x) for x in ex): return None
        ls = [p if p.eq(q) else z3.If(c, p, q) for p, q in zip(leaves(v), ls)]
    names = set()
    for z in ls: consts(z, names)
    for nm in names:
        m = re.match(r'.*!(\d+)$', nm)
        if m and int(m.group(1)) > n0: return None
    def at(k): return rebuild(base, [z3.substitute(z, (i, k)) for z in ls])
    return at
def ctr():
    import values
    return values._ctr[0]

def comparator(eng, st, sl, clo, fr, e, what, guard=None):
    """Evaluate a comparison closure on two arbitrary elements: E(i, j) = tag (0, 1, 2).  The comparison must be pure and a total
    order on the elements (the standard library may panic otherwise)."""
    i, j = fresh('ci', I), fresh('cj', I)
    s0 = st.fork().assume(z3.And(i >= 0, i < sl.n, j >= 0, j < sl.n))
    if guard is not None: s0.assume(z3.And(guard(i), guard(j)))
    cells = set(st.store)
    n0 = ctr()
    rs = clo(s0, i, j)
    clean = []
    for s, v in rs:
        dirty = isinstance(v, Abr)
        for c in cells:
            if s.store[c] is not st.store[c]:
                x, y = s.store[c], st.store[c]
                if not same(x, y) or any(not p.eq(q) for p, q in zip(leaves(x), leaves(y))): dirty = True
        if dirty:
            if eng.feasible(s): eng.oblige(s, z3.BoolVal(False), '%s: the comparison has no side effect' % what, where=where(e))
            continue
        clean.append((s, v))
    if not clean: raise Unsup('comparison')
    tag = tagof(clean[-1][1])
    for s, v in reversed(clean[:-1]):
        ex = eng.extra(s.pc, s0.pc)
        if any(T.has_quant(x) for x in ex): raise Unsup('comparison with quantified facts')
        tag = z3.If(z3.And(*ex) if ex else z3.BoolVal(True), tagof(v), tag)
    names = consts(tag, set())
    for nm in names:
        m = re.match(r'.*!(\d+)$', nm)
        if m and int(m.group(1)) > n0: raise Unsup('comparison is not a function of the elements')
    def E(a, b): return z3.simplify(z3.substitute(tag, (i, a), (j, b)))
    a, b, c = fresh('oa', I), fresh('ob', I), fresh('oc', I)
    s1 = st.fork().assume(z3.And(*[z3.And(x >= 0, x < sl.n) for x in (a, b, c)]))
    if guard is not None: s1.assume(z3.And(guard(a), guard(b), guard(c)))
    good = z3.And((E(a, b) == 0) == (E(b, a) == 2), (E(a, b) == 1) == (E(b, a) == 1), E(a, a) == 1,
                  z3.Implies(z3.And(E(a, b) != 2, E(b, c) != 2), E(a, c) != 2), z3.Implies(z3.And(E(a, b) == 1, E(b, c) == 1), E(a, c) == 1))
    eng.oblige(s1, good, '%s: the comparison is a total order' % what, where=where(e))
    return E
@model('slice::sort_by', 'slice::sort_unstable_by', 'slice::sort_by_key', 'slice::sort', 'slice::sort_unstable', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def _(eng, st, f, a, fr, e):
    sl = eng.as_slice(st, a[0]); n = f['name']
    x = eng.read(st, sl.ref)
    if isinstance(x, LV): x = to_vc(x); eng.write(st, sl.ref, x)
    stable = 'unstable' not in n
    if not (z3.is_int_value(z3.simplify(sl.lo)) and z3.simplify(sl.lo).as_long() == 0): raise Unsup('sort of a subslice')
    def cmp(s, i, j):
        p, q = eng.elem(sl, i), eng.elem(sl, j)
        if n.endswith('_by'): return cv(eng, s, a[1], [p, q], fr, e)
        if n.endswith('key'):
            out = []
            for s2, u in cv(eng, s, a[1], [p], fr, e):
                for s3, v in cv(eng, s2, a[1], [q], fr, e): out += REG['Ord::cmp'](eng, s3, {'name': 'cmp'}, [u, v], fr, e)
            return out
        return REG['Ord::cmp'](eng, s, {'name': 'cmp'}, [p, q], fr, e)
    E = comparator(eng, st, sl, cmp, fr, e, 'sort')
    arrs = [fresh('sorted', A.sort()) for A in x.arrs]
    p, q = fresh('perm', z3.ArraySort(I, I)), fresh('pinv', z3.ArraySort(I, I))
    i, j = T.iv_('si'), T.iv_('sj')
    N = sl.n
    S = z3.Select
    inr = lambda k: z3.And(k >= 0, k < N)
    for pf in T.perm_facts(list(zip(arrs, x.arrs)), p, q, N): st.assume(pf)
    st.assume(T.FA(i, z3.Implies(z3.Not(inr(i)), z3.And(*[S(Bn, i) == S(A, i) for Bn, A in zip(arrs, x.arrs)])), [S(A, i) for A in arrs]))
    Ee = z3.substitute  # comparison of the sorted elements, through the permutation
    ij = E(S(p, i), S(p, j))
    ordf = z3.And(ij != 2, z3.Implies(ij == 1, S(p, i) < S(p, j)) if stable else z3.BoolVal(True))
    st.assume(T.FA([i, j], z3.Implies(z3.And(i >= 0, i < j, j < N), ordf), [(S(p, i), S(p, j))]))
    eng.write(st, sl.ref, Vc(x.n, x.tmpl, arrs))
    return one(st, UNIT)
def view_of(eng, st, it, fr, e):
    """A pure pipeline over a slice: (slice, lo, hi, item(state, i) -> [(state, value)], guard(i) or None)."""
    if it.name in ('it:slice', 'it:vec'):
        s = it.f['s']
        if it.name == 'it:slice': return s, it.f['lo'].z, it.f['hi'].z, (lambda st2, i: [(st2, s.to(('i', i)))]), None
        return s, it.f['lo'].z, it.f['hi'].z, (lambda st2, i: [(st2, eng.read(st2, s.to(('i', i))))]), None
    if it.name == 'it:enum':
        s, lo, hi, g, gd = view_of(eng, st, it.f['it'], fr, e)
        if gd is not None: raise Unsup('enumerate after filter')
        return s, lo, hi, (lambda st2, i: [(s3, tup(Sc(z3.simplify(it.f['n'].z + i - lo), 'usize'), v)) for s3, v in g(st2, i)]), None
    if it.name == 'it:cloned':
        s, lo, hi, g, gd = view_of(eng, st, it.f['it'], fr, e)
        return s, lo, hi, (lambda st2, i: [(s3, eng.deref(s3, v)) for s3, v in g(st2, i)]), gd
    if it.name == 'it:map' and 'm' not in it.f:
        s, lo, hi, g, gd = view_of(eng, st, it.f['it'], fr, e)
        return s, lo, hi, (lambda st2, i: eng.bind(g(st2, i), lambda s3, v: cv(eng, s3, it.f['f'], [v], fr, e))), gd
    if it.name == 'it:filter':
        s, lo, hi, g, gd = view_of(eng, st, it.f['it'], fr, e)
        P = pointwise(eng, st, lambda st2, i: eng.bind(g(st2, i), lambda s3, v: cv(eng, s3, it.f['f'], [eng.tmp(s3, v)], fr, e)), lo, hi)
        if P is None: raise Unsup('filter predicate')
        gd2 = lambda i: P(i).z if gd is None else z3.And(gd(i), P(i).z)
        return s, lo, hi, g, gd2
    raise Unsup('view of ' + it.name)
@model('Iterator::max_by', 'Iterator::min_by', 'Iterator::max_by_key', 'Iterator::min_by_key')
def _(eng, st, f, a, fr, e):
    it, r = peel(eng, st, a[0], fr, e); n = f['name']
    s, lo, hi, g, gd = view_of(eng, st, it, fr, e)
    if n.endswith('key'):
        raise Unsup(n)
    mx = n == 'max_by'
    def cmp(st2, i, j):
        def k(s3, v): return eng.bind(g(s3, j), lambda s4, w: cv(eng, s4, a[1], [eng.tmp(s4, v), eng.tmp(s4, w)], fr, e))
        return eng.bind(g(st2, i), k)
    base = Sl(s, z3.IntVal(0), hi)
    g2 = lambda i: z3.And(i >= lo, gd(i) if gd is not None else z3.BoolVal(True))
    E = comparator(eng, st, base, cmp, fr, e, n, g2)
    k = fresh('best', I); j = T.iv_('bj')
    inr = lambda x: z3.And(x >= lo, x < hi, gd(x) if gd is not None else z3.BoolVal(True))
    vec = eng.read(st, s)
    pats = [z3.Select(A, j) for A in vec.arrs]
    a1 = st.fork()
    a1.assume(inr(k))
    c = E(j, k)
    bestf = z3.And(c != (2 if mx else 0), z3.Implies(j > k, c == 0) if mx else z3.Implies(j < k, c == 2))
    a1.assume(T.FA(j, z3.Implies(inr(j), z3.Implies(j != k, bestf)), pats))
    none = st.fork()
    none.assume(T.FA(j, z3.Not(inr(j)), pats))
    none.assume(z3.Implies(lo < hi, z3.Not(gd(lo)) if gd is not None else z3.BoolVal(False)))
    out = []
    if eng.feasible(a1): out += eng.bind(g(a1, k), lambda s3, v: [(s3, some(v))])
    if eng.feasible(none): out.append((none, NONE))
    return out

# ------------------------------------------------------------------ locks, function objects
@model('Mutex::lock')
def _(eng, st, f, a, fr, e):
    out = []
    poisoned = fresh('poisoned', B)
    for s, b in eng.split(st, poisoned):
        out.append((s, err(Sc(fresh('poison', OPQ), 'opq:poison')) if b else ok(a[0])))
    return out
@model('FnMut::call_mut', 'Fn::call', 'FnOnce::call_once')
def _(eng, st, f, a, fr, e):
    args = a[1]
    vs = [args.f[str(i)] for i in range(len(args.f))] if isinstance(args, St) and args.name == 'tuple' else [args]
    return eng.call_value(st, a[0], vs, fr, e)

# ------------------------------------------------------------------ resources and random draws
@model('HasSamplerResources::with_rng_mut', 'HasSamplerResources::with_last_tokens', 'HasSamplerResources::with_last_tokens_mut')
def _(eng, st, f, a, fr, e):
    """Contract of the resource trait: calls the function exactly once with the resource when it is there, otherwise names it."""
    r = eng.chase(st, a[0]); v = eng.read(st, r)
    if not isinstance(v, St) or v.name != 'Res': raise Unsup('resources')
    rng = f['name'] == 'with_rng_mut'
    out = []
    for s, b in eng.split(st, v.f['rng' if rng else 'tok'].z):
        if not b:
            out.append((s, err(En('SamplerError', 'MissingResource', {'0': Sc(sconst('rng' if rng else 'last_tokens'), 'str')}))))
        else:
            arg = r if rng else r.to(('f', 'tokens'))
            out += eng.bind(eng.call_value(s, a[1], [arg], fr, e), lambda s2, _: [(s2, ok(UNIT))])
    return out
@model('WeightedIndex::new')
def _(eng, st, f, a, fr, e):
    """rand 0.8: fails on an empty list, a negative or NaN weight, or a zero total; panics if the total is not finite."""
    out = []
    for s, w in REG['Iterator::collect'](eng, st, f, [a[0]], fr, {'ty': {'k': 'adt', 'p': 'alloc::vec::Vec', 'args': [{'k': 'prim', 'n': 'f32'}]}, 'sp': where(e)}):
        if isinstance(w, Abr): out.append((s, w)); continue
        w = to_vc(w)
        if w.tmpl is None: w = Vc(w.n, Sc(fresh('w', F), 'f32'), [fresh('ws', z3.ArraySort(I, F))])
        W = w.arrs[0]
        j = T.iv_('wj')
        bad = fresh('weights_bad', B)
        one_ = fconst(1.0)
        wi = fresh('bad_at', I)
        bade = s.fork(); good = s.fork()
        bade.assume(bad); tz = fresh('total_zero', B)
        bade.assume(z3.Or(w.n == 0, z3.And(wi >= 0, wi < w.n, z3.Not(T.fle(fconst(0.0), z3.Select(W, wi)))), tz))
        bade.assume(z3.Implies(tz, T.FA(j, z3.Implies(z3.And(j >= 0, j < w.n), T.feq(z3.Select(W, j), fconst(0.0))), [z3.Select(W, j)])))
        out.append((bade, err(Sc(fresh('weighted_error', OPQ), 'opq:WeightedError'))))
        good.assume(z3.Not(bad)); good.assume(w.n > 0)
        good.assume(T.FA(j, z3.Implies(z3.And(j >= 0, j < w.n), T.fle(fconst(0.0), z3.Select(W, j))), [z3.Select(W, j)]))
        eng.oblige(good, T.FA(j, z3.Implies(z3.And(j >= 0, j < w.n), T.fle(z3.Select(W, j), one_)), [z3.Select(W, j)]), 'the weights have a finite total', where=where(e))
        if eng.feasible(good): out.append((good, ok(St('WeightedIndex', {'w': w}))))
    return out
@model('Distribution::sample')
def _(eng, st, f, a, fr, e):
    d = eng.deref(st, a[0])
    r = eng.chase(st, a[1]); v = eng.read(st, r)
    if not isinstance(d, St) or d.name != 'WeightedIndex' or not isinstance(v, St) or v.name != 'Res': raise Unsup('random draw')
    i = fresh('drawn', I)
    w = d.f['w']
    st.assume(z3.And(i >= 0, i < w.n))
    v = v.upd('draws', Sc(z3.simplify(v.f['draws'].z + 1), 'ghost')).upd('didx', Sc(i, 'ghost')).upd('dn', Sc(w.n, 'ghost')).upd('dw', Sc(w.arrs[0], 'ghostarr'))
    eng.write(st, r, v)
    return one(st, iv(i))
