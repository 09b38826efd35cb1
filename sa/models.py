"""Transfer functions for the standard-library items the analysed crate uses (or could be rewritten to use)."""
import math, re
from terms import *
import terms as TT
from ctx import Infeasible
from interp import (Agg, Vec, Map, Ref, Str, Opq, Choice, FnV, It, UNIT, Unsupported, NeedSplit, Diverge,
                    is_scalar, val_same, merge, strip_generics)

NONE = Agg(None, 0, ())


def Some(x): return Agg(None, 1, (x,))
def Ok(x): return Agg(None, 0, (x,))
def Err(x): return Agg(None, 1, (x,))


EXACT = {}
BYDEF = {}
PATTERNS = []


def m(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d


def md(*names):
    def d(f):
        for n in names: BYDEF[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


_cache = {}


def lookup(sd, dn):
    k = (sd, dn)
    if k in _cache: return _cache[k]
    f = EXACT.get(sd) or BYDEF.get(dn) or EXACT.get(dn)
    if f is None:
        for rx, g in PATTERNS:
            if rx.fullmatch(sd): f = g; break
    _cache[k] = f
    return f


# ------------------------------------------------------------------ helpers

def whnf(I, st, v):
    v = I.resolve(st, v)
    if type(v) is Choice: raise NeedSplit(v.c)
    return v


def deref(I, st, v):
    """value behind (possibly nested) references"""
    v = whnf(I, st, v)
    while type(v) is Ref:
        w = v.win
        x = whnf(I, st, I.load(st, v))
        if w is not None and type(x) is Vec: return Vec(x.f[cint(I, st, w[0]):cint(I, st, w[0]) + cint(I, st, w[1])])
        v = x
    return v


def deref1(I, st, v):
    v = whnf(I, st, v)
    if type(v) is not Ref: return v
    return whnf(I, st, I.load(st, v))


def place_of(I, st, v):
    """the Ref whose target is the actual (non-reference) object"""
    v = whnf(I, st, v)
    while type(v) is Ref:
        x = I.load(st, v)
        x = whnf(I, st, x)
        if type(x) is not Ref: return v
        v = x if v.win is None else v
    return v


def cint(I, st, x):
    """concrete integer or split/unsupported"""
    x = whnf(I, st, x)
    if type(x) is int: return x
    if type(x) is T:
        lo, hi = st.ctx.iv(x)
        if lo == hi: return lo
        if hi - lo <= 16: raise NeedSplit(lt(x, (lo + hi) // 2 + 1))
        # distribute over gates
        for t in walk(x):
            if t.op == 'ite' and st.ctx.decide(t.a[0]) is None: raise NeedSplit(t.a[0])
        raise Unsupported('symbolic count %s' % show(x))
    raise Unsupported('int expected: %r' % (x,))


def cbool(I, st, c):
    d = c if type(c) is bool else (st.ctx.decide(c) if type(c) is T else None)
    if d is None:
        c = whnf(I, st, c)
        if type(c) is bool: return c
        raise NeedSplit(c)
    return d


def with_refs(I, st, vals, f):
    """f(references to vals); the references do not outlive the call"""
    rs = [I.new(st, v, 'tm') for v in vals]
    r = f(rs)
    for x in rs: st.mem.pop(x.key, None)
    return r


def require(I, st, cond, kind):
    d = cond if type(cond) is bool else st.ctx.decide(cond)
    inst, bi = I.cur
    I.asserts += 1
    if d is True: return
    if d is None:
        try: bad = st.ctx.assume(cond, False)
        except Infeasible: return
    else: bad = st.ctx
    I.panics.append((inst['sdef'], inst['blocks'][bi].get('sp', ''), kind, bad, tuple(I.stack)))
    if d is False: raise Diverge()
    try: st.ctx = st.ctx.assume(cond, True)
    except Infeasible: raise Diverge()


def panic(I, st, kind):
    inst, bi = I.cur
    I.panics.append((inst['sdef'], inst['blocks'][bi].get('sp', ''), kind, st.ctx, tuple(I.stack)))
    raise Diverge()


def seq_ref(I, st, v):
    """(Ref-without-window, offset, length) of a slice/Vec/array reference"""
    r = whnf(I, st, v)
    while True:
        if type(r) is Vec: r = I.new(st, r, 'v')
        if type(r) is not Ref: raise Unsupported('slice of %r' % (r,))
        if r.win is not None: return Ref(r.key, r.path), r.win[0], r.win[1]
        x = whnf(I, st, I.load(st, r))
        if type(x) is Ref: r = x; continue
        if type(x) is Opq: raise Unsupported('opaque slice')
        if type(x) is not Vec: raise Unsupported('slice of %r' % (type(x),))
        return r, 0, len(x.f)


def items_of(I, st, v):
    x = deref(I, st, v)
    if type(x) is not Vec: raise Unsupported('sequence expected, got %r' % (type(x),))
    return x.f


# ------------------------------------------------------------------ panics

@pat(r'core::panicking::.*|std::rt::panic_fmt|std::rt::begin_panic.*|std::panicking::.*|core::panic::.*|std::process::abort|.*::unwrap_failed|.*::expect_failed|std::option::unwrap_failed|std::result::unwrap_failed|core::slice::index::slice_.*fail.*|core::str::slice_error_fail.*|std::slice::index::.*fail.*')
def _panic(I, st, a, ce, t): panic(I, st, 'panic:' + (t['sdef'] if t else ce['def']).split('::')[-1])


@md('std::process::exit')
def _exit(I, st, a, ce, t): panic(I, st, 'exit')


# ------------------------------------------------------------------ floats

def f_un(op):
    def f(I, st, a, ce, t): return funary(op, whnf(I, st, a[0]))
    return f


def f_step(op):
    def f(I, st, a, ce, t): return fstep(op, whnf(I, st, a[0]))
    return f


for n in ('sqrt', 'exp', 'sin', 'cos', 'tan', 'ln', 'cbrt', 'atan', 'log10', 'asin', 'acos'):
    for p in ('std::f64::<impl f64>::', 'core::f64::<impl f64>::', 'core::f64::math::', 'std::f64::math::'): EXACT[p + n] = f_un(n)
    EXACT['std::intrinsics::%sf64' % {'ln': 'log'}.get(n, n)] = f_un(n)
EXACT['std::f64::<impl f64>::exp_m1'] = f_un('expm1')
EXACT['std::f64::<impl f64>::ln_1p'] = f_un('ln_1p')
for n in ('floor', 'ceil', 'trunc', 'round'):
    for p in ('std::f64::<impl f64>::', 'core::f64::<impl f64>::'): EXACT[p + n] = f_step(n)
    EXACT['std::intrinsics::%sf64' % n] = f_step(n)


def two(f):
    def g(I, st, a, ce, t): return f(whnf(I, st, a[0]), whnf(I, st, a[1]))
    return g


for p in ('std::f64::<impl f64>::', 'core::f64::<impl f64>::'):
    EXACT[p + 'powf'] = two(fpow)
    EXACT[p + 'powi'] = two(lambda x, n: fpow(x, i2f(n)))
    EXACT[p + 'atan2'] = two(fatan2)
    EXACT[p + 'hypot'] = two(fhypot)
    EXACT[p + 'max'] = two(fmax)
    EXACT[p + 'min'] = two(fmin)
    EXACT[p + 'maximum'] = two(fmax)
    EXACT[p + 'minimum'] = two(fmin)
    EXACT[p + 'abs'] = lambda I, st, a, ce, t: fabs(whnf(I, st, a[0]))
    EXACT[p + 'mul_add'] = lambda I, st, a, ce, t: fadd(fmul(whnf(I, st, a[0]), whnf(I, st, a[1])), whnf(I, st, a[2]))
    EXACT[p + 'to_degrees'] = lambda I, st, a, ce, t: fmul(whnf(I, st, a[0]), 180.0 / math.pi)
    EXACT[p + 'to_radians'] = lambda I, st, a, ce, t: fmul(whnf(I, st, a[0]), math.pi / 180.0)
    EXACT[p + 'is_nan'] = lambda I, st, a, ce, t: isnan(whnf(I, st, a[0]))
    EXACT[p + 'is_finite'] = lambda I, st, a, ce, t: isfin(whnf(I, st, a[0]))
    EXACT[p + 'is_infinite'] = lambda I, st, a, ce, t: b_and(b_not(isfin(whnf(I, st, a[0]))), b_not(isnan(whnf(I, st, a[0]))))
    EXACT[p + 'recip'] = lambda I, st, a, ce, t: fdiv(1.0, whnf(I, st, a[0]))
    EXACT[p + 'to_bits'] = lambda I, st, a, ce, t: I.f_to_bits(whnf(I, st, a[0]))
    EXACT[p + 'from_bits'] = lambda I, st, a, ce, t: I.bits_to_f(whnf(I, st, a[0]))
    for q in ('ne', 'le', 'be'): EXACT[p + 'to_%s_bytes' % q] = lambda I, st, a, ce, t: fbytes(whnf(I, st, a[0]))
    EXACT[p + 'fract'] = lambda I, st, a, ce, t: fsub(whnf(I, st, a[0]), fstep('trunc', whnf(I, st, a[0])))
    EXACT[p + 'is_sign_negative'] = lambda I, st, a, ce, t: lt(whnf(I, st, a[0]), 0.0)
    EXACT[p + 'is_sign_positive'] = lambda I, st, a, ce, t: b_not(lt(whnf(I, st, a[0]), 0.0))


def fbytes(x):
    return Vec([uf('f64_bits', 'i', (x,)) if type(x) is T else I_bits(x)] + [0] * 7)


def I_bits(x):
    import struct
    return struct.unpack('>q', struct.pack('>d', x))[0]


def isnan(x):
    if type(x) is float: return x != x
    if not x.nan: return False
    return uf('isnan', 'b', (x,))


def isfin(x):
    if type(x) is float: return x == x and abs(x) != INF
    if not x.nan and x.lo > -INF and x.hi < INF: return True
    return uf('isfin', 'b', (x,))


@m('std::f64::<impl f64>::rem_euclid', 'core::f64::<impl f64>::rem_euclid')
def _re(I, st, a, ce, t):
    x, y = whnf(I, st, a[0]), whnf(I, st, a[1])
    r = frem_(x, y)
    return ite(lt(r, 0.0), fadd(r, fabs(y)), r)


@m('std::f64::<impl f64>::div_euclid', 'core::f64::<impl f64>::div_euclid')
def _de(I, st, a, ce, t):
    x, y = whnf(I, st, a[0]), whnf(I, st, a[1])
    q = fstep('trunc', fdiv(x, y))
    return ite(lt(frem_(x, y), 0.0), ite(gt(y, 0.0), fsub(q, 1.0), fadd(q, 1.0)), q)


@m('std::f64::<impl f64>::signum', 'core::f64::<impl f64>::signum')
def _sg(I, st, a, ce, t):
    x = whnf(I, st, a[0])
    if type(x) is float: return math.copysign(1.0, x) if x == x else x
    return ite(lt(x, 0.0), -1.0, 1.0)


@m('std::f64::<impl f64>::copysign', 'core::f64::<impl f64>::copysign')
def _cs(I, st, a, ce, t):
    x, s = whnf(I, st, a[0]), whnf(I, st, a[1])
    return ite(lt(s, 0.0), fneg(fabs(x)), fabs(x))


@m('std::f64::<impl f64>::clamp', 'core::f64::<impl f64>::clamp')
def _fc(I, st, a, ce, t):
    x, lo, hi = [whnf(I, st, v) for v in a]
    require(I, st, le(lo, hi), 'panic:clamp')
    return ite(lt(x, lo), lo, ite(gt(x, hi), hi, x))


@m('std::f64::<impl f64>::total_cmp', 'core::f64::<impl f64>::total_cmp')
def _tc(I, st, a, ce, t): return I.ordering(deref(I, st, a[0]), deref(I, st, a[1]))


@pat(r'std::intrinsics::(.*)')
def _intr(I, st, a, ce, t):
    n = (t['sdef'] if t else ce['def']).split('::')[-1]
    n = strip_generics(n)
    v = [whnf(I, st, x) for x in a]
    if n in ('fabsf64', 'fabs'): return fabs(v[0])
    if n.startswith('max'): return fmax(v[0], v[1])
    if n.startswith('min'): return fmin(v[0], v[1])
    if n == 'powf64': return fpow(v[0], v[1])
    if n == 'powif64': return fpow(v[0], i2f(v[1]))
    if n == 'fmaf64': return fadd(fmul(v[0], v[1]), v[2])
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        ty = I.p.types[ce['args'][0]]
        f = {'wrapping_add': iadd, 'wrapping_sub': isub, 'wrapping_mul': imul}[n]
        return wrap(f(v[0], v[1]), ty['bits'], ty['signed'])
    if n in ('likely', 'unlikely', 'black_box'): return v[0]
    if n in ('cold_path', 'assume', 'assert_inhabited'): return UNIT
    if n == 'ub_checks' or n == 'overflow_checks' or n == 'const_eval_select': return False if n != 'const_eval_select' else NotImplemented
    if n == 'discriminant_value': return I.discr(st, deref1(I, st, a[0]))
    if n == 'needs_drop': return False
    if n == 'three_way_compare': return I.ordering(v[0], v[1])
    if n == 'transmute': return v[0]
    if n == 'rotate_left': return uf('rotl', 'i', v)
    return NotImplemented


# ------------------------------------------------------------------ integers

@pat(r'core::num::<impl (i8|i16|i32|i64|i128|isize|u8|u16|u32|u64|u128|usize)>::(\w+)')
def _num(I, st, a, ce, t):
    sd = t['sdef'] if t else strip_generics(ce['def'])
    mm = re.match(r'core::num::<impl (\w+)>::(\w+)', sd)
    ty, n = mm.groups()
    bits = 64 if ty in ('isize', 'usize') else int(ty[1:])
    signed = ty[0] == 'i'
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if n == 'from_str_radix': return _from_str_radix(I, st, a, lo, hi)
    v = [whnf(I, st, x) for x in a]
    w = lambda r: wrap(r, bits, signed)
    if n == 'abs':
        r = iabs(v[0]); require(I, st, le(r, hi), 'assert:Overflow'); return r
    if n == 'unsigned_abs': return iabs(v[0])
    if n in ('wrapping_add', 'unchecked_add'): return w(iadd(v[0], v[1]))
    if n in ('wrapping_sub', 'unchecked_sub'): return w(isub(v[0], v[1]))
    if n in ('wrapping_mul', 'unchecked_mul'): return w(imul(v[0], v[1]))
    if n in ('wrapping_neg',): return w(isub(0, v[0]))
    if n in ('saturating_add', 'saturating_sub', 'saturating_mul'):
        r = {'a': iadd, 's': isub, 'm': imul}[n[11]](v[0], v[1])
        return ite(lt(r, lo), lo, ite(gt(r, hi), hi, r))
    if n in ('checked_add', 'checked_sub', 'checked_mul'):
        r = {'a': iadd, 's': isub, 'm': imul}[n[8]](v[0], v[1])
        return merge(b_and(ge(r, lo), le(r, hi)), Some(r), NONE)
    if n == 'checked_div':
        return merge(eq(v[1], 0), NONE, Some(idiv(v[0], v[1]) if not (type(v[1]) is int and v[1] == 0) else 0))
    if n == 'pow':
        k = cint(I, st, v[1])
        r = 1
        for _ in range(k): r = imul(r, v[0])
        require(I, st, b_and(ge(r, lo), le(r, hi)), 'assert:Overflow')
        return r
    if n == 'rem_euclid':
        require(I, st, ne(v[1], 0), 'assert:RemainderByZero')
        r = irem(v[0], v[1])
        return ite(lt(r, 0), iadd(r, iabs(v[1])), r)
    if n == 'div_euclid':
        q = idiv(v[0], v[1])
        return ite(lt(irem(v[0], v[1]), 0), ite(gt(v[1], 0), isub(q, 1), iadd(q, 1)), q)
    if n == 'signum': return ite(lt(v[0], 0), -1, ite(eq(v[0], 0), 0, 1))
    if n == 'is_negative': return lt(v[0], 0)
    if n == 'is_positive': return gt(v[0], 0)
    if n == 'abs_diff': return iabs(isub(v[0], v[1]))
    if n == 'is_power_of_two' and type(v[0]) is int: return v[0] > 0 and v[0] & (v[0] - 1) == 0
    if n in ('wrapping_shl', 'unchecked_shl'): return w(shl(v[0], cint(I, st, v[1]) % bits))
    if n in ('wrapping_shr', 'unchecked_shr'): return shr(v[0], cint(I, st, v[1]) % bits)
    if n in ('to_ne_bytes', 'to_le_bytes', 'to_be_bytes'):
        bs = [iand(shr(v[0], 8 * i), 255) for i in range(bits // 8)]
        return Vec(bs[::-1] if n == 'to_be_bytes' else bs)
    if n in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        f = list(v[0].f)
        if n == 'from_be_bytes': f = f[::-1]
        r = 0
        for i, b in enumerate(f): r = ior(r, shl(b, 8 * i))
        return w(r)
    if n in ('min_value', 'max_value'): return lo if n == 'min_value' else hi
    return NotImplemented


def _from_str_radix(I, st, a, lo, hi):
    s = whnf(I, st, a[0])
    s = deref(I, st, s)
    radix = cint(I, st, a[1])
    if type(s) is Str and all(type(x) is str for x in s.p):
        x = ''.join(s.p)
        try:
            if not re.fullmatch(r'[+-]?[0-9a-zA-Z]+', x): raise ValueError
            if radix <= 16 and not re.fullmatch(r'[+-]?[0-9a-fA-F]+', x) or radix <= 10 and re.search('[a-zA-Z]', x): raise ValueError
            v = int(x, radix)
            if not lo <= v <= hi: raise ValueError
            return Ok(v)
        except ValueError: return Err(Opq('ParseIntError'))
    cs = schars(s)
    if cs is not None and radix == 16 and 0 < len(cs) <= 15:
        v = 0
        for x in cs:
            if type(x) is str:
                if x not in '0123456789abcdefABCDEF': return Err(Opq('ParseIntError'))
                d = int(x, 16)
            else: d = x[2]
            v = iadd(imul(v, 16), d)
        if TT.iv(v)[1] <= hi: return Ok(v)
    if type(s) is Opq or type(s) is Str:
        I.events.append(('parse', s, radix))
        b = uf('parse_ok_%d' % radix, 'b', strterm(s))
        return merge(b, Ok(uf('parse_%d' % radix, 'i', strterm(s), lo, hi)), Err(Opq('ParseIntError')))
    raise Unsupported('from_str_radix of %r' % (s,))


def schars(s):
    """characters of a string value: str, or ('hd', upper, digit term); None if not expressible"""
    if type(s) is not Str: return None
    out = []
    for p in s.p:
        if type(p) is str: out.extend(p); continue
        if p[0] == 'hd': out.append(p); continue
        if p[0] in ('lower_hex', 'upper_hex') and type(p[1]) is T and p[1].lo >= 0:
            w, fl = p[2] or 0, p[3] or 0
            n = len('%x' % p[1].hi)
            if fl & (1 << 23): return None
            if n > 1 and not (fl & (1 << 24) and w >= n): return None
            if w > n and not fl & (1 << 24): return None
            out.extend('0' * (w - n))
            for i in range(n - 1, -1, -1): out.append(('hd', p[0] == 'upper_hex', iand(shr(p[1], 4 * i), 15)))
            continue
        return None
    out = [(('%X' if p[1] else '%x') % p[2]) if type(p) is tuple and type(p[2]) is int else p for p in out]
    return out


def sjoin(l):
    out = []
    for x in l:
        if type(x) is str and out and type(out[-1]) is str: out[-1] += x
        else: out.append(x)
    return Str(out)


def strterm(s):
    if type(s) is Opq: return [uf('str:' + s.name + repr([x for x in s.a if not is_scalar(x)]), 'i', [x for x in s.a if is_scalar(x)])]
    out = []
    for p in s.p:
        if type(p) is str: out.append(h64(p) % (1 << 40))
        else: out.append(uf('fmt:' + repr(p[0]), 'i', [x for x in p[1:] if is_scalar(x)]))
    return out


@pat(r'std::cmp::impls::<impl std::cmp::Ord for (i8|i16|i32|i64|isize|u8|u16|u32|u64|usize)>::(min|max|clamp)|std::cmp::Ord::(min|max|clamp)')
def _ordmm(I, st, a, ce, t):
    n = (t['sdef'] if t else ce['def']).split('::')[-1]
    v = [whnf(I, st, x) for x in a]
    if not all(is_scalar(x) for x in v): return NotImplemented
    if n == 'min': return ite(lt(v[1], v[0]), v[1], v[0])
    if n == 'max': return ite(lt(v[1], v[0]), v[0], v[1])
    return ite(lt(v[0], v[1]), v[1], ite(gt(v[0], v[2]), v[2], v[0]))


@pat(r'std::cmp::impls::<impl std::cmp::PartialOrd for \w+>::partial_cmp')
def _pcmp(I, st, a, ce, t):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    o = Some(I.ordering(x, y))
    if maynan(x) or maynan(y):
        return merge(b_or(isnan(x) if sort_of(x) == 'f' else False, isnan(y) if sort_of(y) == 'f' else False), NONE, o)
    return o


@pat(r'std::cmp::impls::<impl std::cmp::Ord for \w+>::cmp')
def _cmp_(I, st, a, ce, t):
    return I.ordering(deref(I, st, a[0]), deref(I, st, a[1]))


@pat(r'std::cmp::impls::<impl std::cmp::PartialOrd for \w+>::(lt|le|gt|ge)')
def _plt(I, st, a, ce, t):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[t['sdef'].split('::')[-1]](x, y)


@pat(r'std::convert::num::<impl std::convert::From<\w+> for \w+>::from|core::convert::num::.*::from')
def _from(I, st, a, ce, t):
    x = whnf(I, st, a[0])
    ret = I.p.types[t['locals'][0]] if t and 'locals' in t else None
    if ret is not None and ret['k'] == 'float' and sort_of(x) == 'i': return i2f(x)
    if sort_of(x) == 'b': return ite(x, 1, 0)
    return x


# ------------------------------------------------------------------ mem, ptr, Box, hint

@md('std::mem::swap')
def _swap(I, st, a, ce, t):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    I.store(st, a[0], y); I.store(st, a[1], x)
    return UNIT


@md('std::mem::replace')
def _replace(I, st, a, ce, t):
    x = I.load(st, a[0]); I.store(st, a[0], a[1])
    return x


@md('std::mem::drop', 'std::mem::forget')
def _drop(I, st, a, ce, t): return UNIT


@md('std::mem::discriminant')
def _discr(I, st, a, ce, t): return I.discr(st, deref(I, st, a[0]))


@md('std::hint::must_use', 'std::hint::black_box', 'std::convert::identity')
def _id(I, st, a, ce, t): return a[0]


@m('std::boxed::Box::new', 'std::rc::Rc::new', 'std::sync::Arc::new', 'std::boxed::Box::pin')
def _boxnew(I, st, a, ce, t): return I.new(st, a[0], 'b')


@m('std::boxed::Box::new_uninit')
def _boxun(I, st, a, ce, t): return I.new(st, None, 'b')


@m('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::<impl [T]>::into_vec')
def _biv(I, st, a, ce, t):
    v = I.load(st, a[0])
    while type(v) is Agg and len(v.f) >= 1: v = [x for x in v.f if x is not None][-1]
    if type(v) is not Vec: raise Unsupported('into_vec of %r' % (v,))
    return v


@pat(r'<std::(rc::Rc|sync::Arc)<.*> as std::clone::Clone>::clone')
def _rcclone(I, st, a, ce, t): return whnf(I, st, I.load(st, a[0]))


@pat(r'<std::(rc::Rc|sync::Arc|boxed::Box)<.*> as std::(ops::Deref|ops::DerefMut|convert::AsRef.*|borrow::Borrow.*)>::\w+')
def _rcderef(I, st, a, ce, t): return whnf(I, st, I.load(st, a[0]))


@pat(r'<std::boxed::Box<.*> as std::clone::Clone>::clone')
def _boxclone(I, st, a, ce, t):
    r = whnf(I, st, I.load(st, a[0]))
    return I.new(st, I.load(st, r), 'b') if type(r) is Ref else r


# ------------------------------------------------------------------ function values

@md('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def _fncall(I, st, a, ce, t):
    f = whnf(I, st, a[0])
    args = whnf(I, st, a[1])
    if type(args) is not Agg: raise Unsupported('untupled call')
    return I.apply(st, f, list(args.f))


# ------------------------------------------------------------------ Clone / Default / conversions

@pat(r'std::clone::impls::<impl std::clone::Clone for .*>::clone|<std::string::String as std::clone::Clone>::clone|std::tuple::<impl std::clone::Clone for .*>::clone|std::array::<impl std::clone::Clone for .*>::clone')
def _clone(I, st, a, ce, t):
    if '&T' in (t['sdef'] if t else ''): return I.load(st, a[0])
    return I.load(st, whnf(I, st, a[0])) if type(whnf(I, st, a[0])) is Ref else a[0]


@m('<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_owned', '<[T] as std::borrow::ToOwned>::to_owned', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned')
def _vclone(I, st, a, ce, t):
    r = whnf(I, st, a[0])
    v = deref(I, st, r)
    if type(v) is Opq: return v
    ety = None
    if ce and ce.get('args'):
        ty = I.p.types[ce['args'][0]]
        ety = ty
    return clone_elems(I, st, v, r)


def clone_elems(I, st, v, r=None):
    f = v.f
    if f and type(f[0]) is Agg and f[0].ty is not None:
        ty = I.p.types[f[0].ty]
        ix = clone_inst(I, ty.get('name', ''))
        if ix is not None and len(f) <= 64:
            return Vec([with_refs(I, st, [x], lambda r: I.call_inst(st, ix, r)) for x in f])
    return Vec(f)


def clone_inst(I, name):
    c = I.p.__dict__.setdefault('_clone_ix', {})
    if name not in c:
        c[name] = next((i['ix'] for i in I.p.insts if i['sdef'] == '<%s as std::clone::Clone>::clone' % name and 'blocks' in i), None) if name else None
    return c[name]


@m('<std::collections::HashMap<K, V, S, A> as std::clone::Clone>::clone', '<std::collections::HashMap<K, V, S> as std::clone::Clone>::clone', '<std::collections::BTreeMap<K, V, A> as std::clone::Clone>::clone', '<std::collections::HashSet<T, S, A> as std::clone::Clone>::clone')
def _mclone(I, st, a, ce, t): return deref(I, st, a[0])


@m('<I as std::iter::IntoIterator>::into_iter', '<T as std::convert::From<T>>::from', '<T as std::convert::Into<U>>::into_', '<T as std::borrow::Borrow<T>>::borrow')
def _ident(I, st, a, ce, t): return a[0]


# ------------------------------------------------------------------ Vec / slices

@m('std::vec::Vec::new', '<std::vec::Vec<T> as std::default::Default>::default', 'std::collections::VecDeque::new')
def _vnew(I, st, a, ce, t): return Vec(())


@m('std::vec::Vec::with_capacity', 'std::collections::VecDeque::with_capacity')
def _vcap(I, st, a, ce, t): return Vec(())


@m('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::vec::Vec::reserve_exact')
def _vres(I, st, a, ce, t): return UNIT


@m('std::vec::from_elem')
def _felem(I, st, a, ce, t):
    n = whnf(I, st, a[1])
    if type(n) is T:
        lo, hi = st.ctx.iv(n)
        if lo != hi:
            h = I.hooks.get(('from_elem',))
            if h: return h(I, st, a[0], n)
    return Vec([a[0]] * cint(I, st, n))


def vecplace(I, st, v):
    r = place_of(I, st, v)
    if type(r) is not Ref: raise Unsupported('mutable vec %r' % (r,))
    x = whnf(I, st, I.load(st, r))
    return r, x


@m('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def _push(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0])
    if type(x) is Opq:
        h = I.hooks.get(('push', x.name))
        if h: return h(I, st, r, x, a[1])
    if type(x) is not Vec: raise Unsupported('push to %r' % (x,))
    I.store(st, r, Vec(x.f + (a[1],)))
    return UNIT


@m('std::vec::Vec::pop', 'std::collections::VecDeque::pop_back')
def _pop(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0])
    if not x.f: return NONE
    I.store(st, r, Vec(x.f[:-1]))
    return Some(x.f[-1])


@m('std::collections::VecDeque::pop_front')
def _popf(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0])
    if not x.f: return NONE
    I.store(st, r, Vec(x.f[1:]))
    return Some(x.f[0])


@m('std::vec::Vec::insert')
def _vins(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0])
    i = cint(I, st, a[1])
    if not 0 <= i <= len(x.f): panic(I, st, 'panic:insert index')
    I.store(st, r, Vec(x.f[:i] + (a[2],) + x.f[i:]))
    return UNIT


@m('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def _vrem(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0])
    i = cint(I, st, a[1])
    if not 0 <= i < len(x.f): panic(I, st, 'panic:remove index')
    v = x.f[i]
    if t['sdef'].endswith('swap_remove'):
        f = list(x.f); f[i] = f[-1]; f.pop(); I.store(st, r, Vec(f))
    else: I.store(st, r, Vec(x.f[:i] + x.f[i + 1:]))
    return v


@m('std::vec::Vec::clear', 'std::collections::VecDeque::clear')
def _vclear(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0]); I.store(st, r, Vec(())); return UNIT


@m('std::vec::Vec::truncate')
def _vtrunc(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0]); I.store(st, r, Vec(x.f[:cint(I, st, a[1])])); return UNIT


@m('std::vec::Vec::resize')
def _vresize(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0]); n = cint(I, st, a[1])
    I.store(st, r, Vec(x.f[:n] + (a[2],) * max(0, n - len(x.f)))); return UNIT


@m('std::slice::<impl [T]>::fill', 'core::slice::<impl [T]>::fill')
def _vfill(I, st, a, ce, t):
    r, o, n = seq_ref(I, st, a[0]); x = I.load(st, r)
    I.store(st, r, Vec(x.f[:o] + (a[1],) * n + x.f[o + n:])); return UNIT


@m('std::vec::Vec::append')
def _vapp(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0]); q, y = vecplace(I, st, a[1])
    I.store(st, r, Vec(x.f + y.f)); I.store(st, q, Vec(())); return UNIT


@m('std::vec::Vec::extend_from_slice')
def _vefs(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0]); I.store(st, r, Vec(x.f + tuple(items_of(I, st, a[1])))); return UNIT


@md('std::iter::Extend::extend')
def _extend(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0])
    sd = t['sdef'] if t else ''
    its = drain(I, st, to_iter(I, st, a[1]))
    if type(x) is Vec:
        if "&'a T" in sd: its = [deref(I, st, v) for v in its]
        I.store(st, r, Vec(x.f + tuple(its))); return UNIT
    if type(x) is Map:
        for kv in its:
            kv = whnf(I, st, kv)
            if x.kty in ('set', 'bset'): map_insert(I, st, r, kv, UNIT)
            else: map_insert(I, st, r, kv.f[0], kv.f[1])
        return UNIT
    if type(x) is Str:
        I.store(st, r, Str(x.p + tuple(p for s in its for p in deref(I, st, s).p))); return UNIT
    return NotImplemented


@m('std::vec::Vec::retain')
def _retain(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0])
    out = []
    for v in x.f:
        if cbool(I, st, I.apply(st, a[1], [I.new(st, v, 'it')])): out.append(v)
    I.store(st, r, Vec(out)); return UNIT


@m('std::vec::Vec::len', 'core::slice::<impl [T]>::len', 'std::collections::VecDeque::len')
def _vlen(I, st, a, ce, t):
    r = whnf(I, st, a[0])
    if type(r) is Ref and r.win is not None: return r.win[1]
    return I.len_of(st, deref(I, st, r))


@m('std::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'std::collections::HashMap::is_empty', 'std::string::String::is_empty', 'core::str::<impl str>::is_empty', 'std::collections::BTreeMap::is_empty', 'std::collections::HashSet::is_empty')
def _vempty(I, st, a, ce, t):
    r = whnf(I, st, a[0])
    if type(r) is Ref and r.win is not None: return eq(r.win[1], 0)
    return eq(I.len_of(st, deref(I, st, r)), 0)


@m('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow', 'std::vec::Vec::into_boxed_slice', 'std::array::<impl [T; N]>::as_slice', 'core::array::<impl [T; N]>::as_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<std::vec::Vec<T, A>>>::as_ref')
def _vderef(I, st, a, ce, t): return a[0]


def range_bounds(I, st, idx, n):
    ty = I.p.types[idx.ty]['name'] if idx.ty is not None else ''
    f = [I.resolve(st, x) for x in idx.f]
    if ty.endswith('RangeFull'): return 0, n
    if ty.endswith('RangeTo'): return 0, f[0]
    if ty.endswith('RangeFrom'): return f[0], n
    if ty.endswith('RangeToInclusive'): return 0, iadd(f[0], 1)
    if ty.endswith('RangeInclusive'): return f[0], iadd(f[1], 1)
    return f[0], f[1]


def index(I, st, seq, idx):
    """Ref of element or sub-slice"""
    idx = whnf(I, st, idx)
    s = whnf(I, st, seq)
    if type(s) is Ref:
        x = whnf(I, st, I.load(st, s))
        if type(x) is Opq:
            h = I.hooks.get(('index', x.name))
            if h: return h(I, st, x, idx)
    r, o, n = seq_ref(I, st, seq)
    if is_scalar(idx):
        require(I, st, b_and(ge(idx, 0), lt(idx, n)), 'index')
        i = iadd(o, idx)
        if type(i) is T:
            lo, hi = st.ctx.iv(i)
            if lo == hi: i = lo
        return Ref(r.key, r.path + (i,))
    if type(idx) is Agg:
        lo, hi = range_bounds(I, st, idx, n)
        require(I, st, b_and(le(lo, hi), le(hi, n)), 'slice index')
        return Ref(r.key, r.path, (iadd(o, lo), isub(hi, lo)))
    raise Unsupported('index by %r' % (idx,))


@m('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut', 'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut', 'std::slice::index::<impl std::ops::Index<I> for [T]>::index', 'std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def _vindex(I, st, a, ce, t): return index(I, st, a[0], a[1])


@m('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _sget(I, st, a, ce, t):
    r, o, n = seq_ref(I, st, a[0])
    i = whnf(I, st, a[1])
    if type(i) is Agg:
        lo, hi = range_bounds(I, st, i, n)
        return merge(b_and(le(lo, hi), le(hi, n)), Some(Ref(r.key, r.path, (iadd(o, lo), isub(hi, lo)))), NONE)
    c = b_and(ge(i, 0), lt(i, n))
    d = c if type(c) is bool else st.ctx.decide(c)
    if d is False: return NONE
    x = Some(Ref(r.key, r.path + (iadd(o, i),)))
    return x if d else merge(c, x, NONE)


@m('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def _sgetu(I, st, a, ce, t): return index(I, st, a[0], a[1])


@m('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def _first(I, st, a, ce, t):
    r, o, n = seq_ref(I, st, a[0])
    if cint(I, st, n) == 0: return NONE
    return Some(Ref(r.key, r.path + (o,)))


@m('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def _last(I, st, a, ce, t):
    r, o, n = seq_ref(I, st, a[0])
    if cint(I, st, n) == 0: return NONE
    return Some(Ref(r.key, r.path + (o + n - 1,)))


@m('core::slice::<impl [T]>::swap')
def _sswap(I, st, a, ce, t):
    x, y = index(I, st, a[0], a[1]), index(I, st, a[0], a[2])
    p, q = I.load(st, x), I.load(st, y)
    I.store(st, x, q); I.store(st, y, p)
    return UNIT


@m('core::slice::<impl [T]>::reverse')
def _srev(I, st, a, ce, t):
    r, o, n = seq_ref(I, st, a[0]); x = I.load(st, r)
    I.store(st, r, Vec(x.f[:o] + x.f[o:o + n][::-1] + x.f[o + n:])); return UNIT


@m('core::slice::<impl [T]>::contains')
def _contains(I, st, a, ce, t):
    x = deref(I, st, a[0])
    if type(x) is Opq:
        h = I.hooks.get(('contains', x.name))
        if h: return h(I, st, x, a[1])
    y = deref(I, st, a[1])
    r = False
    for v in items_of(I, st, a[0]): r = b_or(r, val_eq(I, st, v, y))
    return r


@m('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter", "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter")
def _siter(I, st, a, ce, t): return to_iter(I, st, a[0])


@pat(r'<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter|.*array.*IntoIterator for \[T; N\]>::into_iter|<std::collections::(HashMap|BTreeMap|HashSet|BTreeSet)<.*> as std::iter::IntoIterator>::into_iter|<&\'a (mut )?std::collections::(HashMap|BTreeMap|HashSet|BTreeSet)<.*> as std::iter::IntoIterator>::into_iter')
def _vinto(I, st, a, ce, t): return to_iter(I, st, a[0])


@m('core::slice::<impl [T]>::windows', 'core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact')
def _windows(I, st, a, ce, t):
    r, o, n = seq_ref(I, st, a[0]); n = cint(I, st, n); k = cint(I, st, a[1])
    if t['sdef'].endswith('windows'): s = [(o + i, k) for i in range(0, n - k + 1)]
    elif t['sdef'].endswith('chunks'): s = [(o + i, min(k, n - i)) for i in range(0, n, k)]
    else: s = [(o + i, k) for i in range(0, n - k + 1, k)]
    return It('vals', tuple(Ref(r.key, r.path, w) for w in s), 0)


@m('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def _splitat(I, st, a, ce, t):
    r, o, n = seq_ref(I, st, a[0]); k = cint(I, st, a[1]); n = cint(I, st, n)
    if k > n: panic(I, st, 'panic:split_at')
    return Agg(None, 0, (Ref(r.key, r.path, (o, k)), Ref(r.key, r.path, (o + k, n - k))))


@m('std::slice::<impl [T]>::concat')
def _concat(I, st, a, ce, t):
    out = []
    for x in items_of(I, st, a[0]):
        y = deref(I, st, x)
        if type(y) is Str: out.extend(y.p)
        else: out.extend(y.f)
    return Vec(out)


@m('std::slice::<impl [T]>::join')
def _join(I, st, a, ce, t):
    sep = deref(I, st, a[1])
    parts = []
    for i, x in enumerate(items_of(I, st, a[0])):
        if i and type(sep) is Str: parts.extend(sep.p)
        y = deref(I, st, x)
        if type(y) is not Str: raise Unsupported('join of %r' % (y,))
        parts.extend(y.p)
    return Str(parts)


@m('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _cfs(I, st, a, ce, t):
    r, o, n = seq_ref(I, st, a[0]); x = I.load(st, r)
    I.store(st, r, Vec(x.f[:o] + tuple(items_of(I, st, a[1])) + x.f[o + n:])); return UNIT


# sorting: insertion with decided comparisons (undecided ones split)
def do_sort(I, st, a, cmp):
    r, o, n = seq_ref(I, st, a)
    x = I.load(st, r)
    h = I.hooks.get(('sort',))
    if h:
        y = h(I, st, x, cmp)
        if y is not NotImplemented:
            I.store(st, r, y); return UNIT
    n = cint(I, st, n)
    fs = list(x.f[o:o + n])
    if n > 2000: raise Unsupported('sort of %d elements' % n)
    out = []
    for v in fs:
        if len(out) > 12:       # same place, found by halving
            lo, hi = 0, len(out)
            while lo < hi:
                mid = (lo + hi) // 2
                if cmp(v, out[mid]): hi = mid
                else: lo = mid + 1
            out.insert(lo, v)
            continue
        i = len(out)
        while i > 0:
            if cmp(v, out[i - 1]): i -= 1
            else: break
        out.insert(i, v)
    I.store(st, r, Vec(x.f[:o] + tuple(out) + x.f[o + n:]))
    return UNIT


def less_discr(I, st, o):
    o = whnf(I, st, o)
    d = I.discr(st, o)
    return cbool(I, st, eq(d, -1))


def val_less(I, st, x, y):
    """condition under which x orders before y (Ord)"""
    x, y = deref(I, st, x), deref(I, st, y)
    if is_scalar(x):
        if sort_of(x) == 'b': return b_and(b_not(x), y)
        return lt(x, y)
    ix = ord_inst(I, x)
    if ix is not None: return with_refs(I, st, [x, y], lambda r: less_discr(I, st, I.call_inst(st, ix, r)))
    if type(x) is Agg and x.ty is not None and I.p.types[x.ty].get('name', '') == 'std::cmp::Reverse': return val_less(I, st, y.f[0], x.f[0])
    if type(x) is Agg and (x.ty is None or I.p.types[x.ty]['k'] == 'tuple'):   # tuples: lexicographic
        for p, q in zip(x.f, y.f):
            if cbool(I, st, val_less(I, st, p, q)): return True
            if cbool(I, st, val_less(I, st, q, p)): return False
        return False
    if type(x) is Str and all(type(p) is str for p in x.p + y.p): return ''.join(x.p) < ''.join(y.p)
    raise Unsupported('order of %r' % (x,))


@m('std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable', 'std::slice::<impl [T]>::sort_unstable')
def _sort(I, st, a, ce, t):
    return do_sort(I, st, a[0], lambda x, y: cbool(I, st, val_less(I, st, x, y)))


def ord_inst(I, x):
    if type(x) is not Agg or x.ty is None: return None
    n = I.p.types[x.ty].get('name', '')
    c = I.p.__dict__.setdefault('_ord_ix', {})
    if n not in c:
        # slices sort through `lt`, i.e. PartialOrd
        c[n] = next((i['ix'] for i in I.p.insts if i['sdef'] == '<%s as std::cmp::Ord>::cmp' % n and 'blocks' in i), None)
    return c[n]


@m('std::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by', 'std::slice::<impl [T]>::sort_unstable_by')
def _sortby(I, st, a, ce, t):
    def cmp(x, y): return with_refs(I, st, [x, y], lambda r: less_discr(I, st, I.apply(st, a[1], r)))
    return do_sort(I, st, a[0], cmp)


@m('std::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable_by_key', 'std::slice::<impl [T]>::sort_by_cached_key')
def _sortkey(I, st, a, ce, t):
    def cmp(x, y):
        k, l = I.apply(st, a[1], [I.new(st, x, 'so')]), I.apply(st, a[1], [I.new(st, y, 'so')])
        return cbool(I, st, val_less(I, st, k, l))
    return do_sort(I, st, a[0], cmp)


# ------------------------------------------------------------------ iterators

def to_iter(I, st, v):
    v = whnf(I, st, v)
    if type(v) is It: return v
    if type(v) is Vec: return It('vals', v.f, 0)
    if type(v) is Map: return It('vals', tuple(Agg(None, 0, v.e[i]) if v.kty not in ('set', 'bset') else v.e[i][0] for i in entry_order(I, st, v)), 0)
    if type(v) is Agg and v.ty is not None and 'Range' in I.p.types[v.ty].get('name', ''): return v
    if type(v) is Agg and v.ty is not None and I.p.types[v.ty].get('name', '') == 'std::option::Option':
        return It('vals', tuple(v.f) if v.v == 1 else (), 0)
    if type(v) is Agg and v.ty is None and len(v.f) <= 1: return It('vals', tuple(v.f) if v.v == 1 else (), 0)
    if type(v) is Opq:
        h = I.hooks.get(('iter', v.name))
        if h: return h(I, st, v)
    if type(v) is Ref:
        x = whnf(I, st, I.load(st, v))
        if type(x) is Ref: return to_iter(I, st, x)
        if type(x) is Map:
            if x.kty in ('set', 'bset'): return It('vals', tuple(Ref(v.key, v.path + (('mk', i),)) for i in entry_order(I, st, x)), 0)
            return It('vals', tuple(Agg(None, 0, (Ref(v.key, v.path + (('mk', i),)), Ref(v.key, v.path + (('mv', i),)))) for i in entry_order(I, st, x)), 0)
        if type(x) is It: return It('byref', v)
        if type(x) is Agg and x.ty is not None and 'Range' in I.p.types[x.ty].get('name', ''): return It('byref', v)
        if type(x) is Opq:
            h = I.hooks.get(('iter', x.name))
            if h: return h(I, st, x)
        if type(x) is Agg and x.ty is None or type(x) is Agg and I.p.types[x.ty].get('name', '') == 'std::option::Option':
            return It('vals', (Ref(v.key, v.path + (0,)),) if x.v == 1 else (), 0)
        r, o, n = seq_ref(I, st, v)
        return It('seq', r, o, iadd(o, n))
    raise Unsupported('iterate over %r' % (v,))


def entry_order(I, st, mp):
    """order in which entries are visited: by key for ordered maps; for hash maps insertion order or, in a second reading of the program, its reverse"""
    n = len(mp.e)
    if mp.kty not in ('bt', 'bset'):
        if n > 1: I.events.append(('maporder', tuple(I.stack)))
        return list(range(n))[::-1] if I.maprev else list(range(n))
    out = []
    for i in range(n):
        j = len(out)
        while j > 0 and key_less(I, st, mp.e[i][0], mp.e[out[j - 1]][0]): j -= 1
        out.insert(j, i)
    return out


def key_less(I, st, x, y): return cbool(I, st, val_less(I, st, x, y))


def nxt(I, st, it):
    """(item or None-marker, new iterator); may raise NeedSplit"""
    it = whnf(I, st, it)
    if type(it) is Agg:                      # Range / RangeInclusive values
        name = I.p.types[it.ty]['name']
        f = it.f
        if name.endswith('RangeInclusive'):
            lo, hi, ex = f
            if cbool(I, st, ex) or not cbool(I, st, le(lo, hi)): return None, it
            if cbool(I, st, lt(lo, hi)): return (lo,), Agg(it.ty, it.v, (iadd(lo, 1), hi, False))
            return (lo,), Agg(it.ty, it.v, (lo, hi, True))
        if name.endswith('RangeFrom'): return (f[0],), Agg(it.ty, it.v, (iadd(f[0], 1),))
        if not cbool(I, st, lt(f[0], f[1])): return None, it
        return (f[0],), Agg(it.ty, it.v, (iadd(f[0], 1), f[1]))
    k = it.k
    a = it.a
    if k == 'vals':
        if a[1] >= len(a[0]): return None, it
        return (a[0][a[1]],), It('vals', a[0], a[1] + 1)
    if k == 'seq':
        r, i, j = a
        if not cbool(I, st, lt(i, j)): return None, it
        return (Ref(r.key, r.path + (i,)),), It('seq', r, iadd(i, 1), j)
    if k == 'byref':
        x, n = nxt(I, st, I.load(st, a[0]))
        I.store(st, a[0], n)
        return x, it
    if k == 'map':
        x, n = nxt(I, st, a[0])
        if x is None: return None, It('map', n, a[1])
        f = fnref(I, st, a[1])
        return (I.apply(st, f, [x[0]]),), It('map', n, f)
    if k == 'filter':
        n = a[0]; f = fnref(I, st, a[1])
        while True:
            x, n = nxt(I, st, n)
            if x is None: return None, It('filter', n, f)
            if cbool(I, st, I.apply(st, f, [I.new(st, x[0], 'it')])): return x, It('filter', n, f)
    if k == 'filter_map':
        n = a[0]; f = fnref(I, st, a[1])
        while True:
            x, n = nxt(I, st, n)
            if x is None: return None, It('filter_map', n, f)
            y = whnf(I, st, I.apply(st, f, [x[0]]))
            if I.discr(st, y) == 1: return (y.f[0],), It('filter_map', n, f)
    if k == 'enum':
        x, n = nxt(I, st, a[0])
        if x is None: return None, It('enum', n, a[1])
        return (Agg(None, 0, (a[1], x[0])),), It('enum', n, iadd(a[1], 1))
    if k == 'zip':
        x, n = nxt(I, st, a[0])
        if x is None: return None, It('zip', n, a[1])
        y, n2 = nxt(I, st, a[1])
        if y is None: return None, It('zip', n, n2)
        return (Agg(None, 0, (x[0], y[0])),), It('zip', n, n2)
    if k == 'cloned':
        x, n = nxt(I, st, a[0])
        if x is None: return None, It('cloned', n)
        v = whnf(I, st, x[0])
        return (I.load(st, v) if type(v) is Ref else v,), It('cloned', n)
    if k == 'take':
        c = whnf(I, st, a[1])
        if cbool(I, st, le(c, 0)): return None, it
        x, n = nxt(I, st, a[0])
        return x, It('take', n, isub(c, 1))
    if k == 'skip':
        n = a[0]; c = cint(I, st, a[1])
        while c > 0:
            x, n = nxt(I, st, n); c -= 1
            if x is None: return None, It('skip', n, 0)
        x, n = nxt(I, st, n)
        return x, It('skip', n, 0)
    if k == 'step_by':
        inner, step, first = a
        x, n = nxt(I, st, inner)
        if not first:
            for _ in range(step - 1):
                if x is None: break
                x, n = nxt(I, st, n)
        return x, It('step_by', n, step, False)
    if k == 'chain':
        if a[0] is not None:
            x, n = nxt(I, st, a[0])
            if x is not None: return x, It('chain', n, a[1])
        x, n = nxt(I, st, a[1])
        return x, It('chain', None, n)
    if k == 'take_while':
        if a[2]: return None, it
        x, n = nxt(I, st, a[0])
        f = fnref(I, st, a[1])
        if x is None: return None, It('take_while', n, f, False)
        if cbool(I, st, I.apply(st, f, [I.new(st, x[0], 'it')])): return x, It('take_while', n, f, False)
        return None, It('take_while', n, f, True)
    if k == 'skip_while':
        n = a[0]; f = fnref(I, st, a[1])
        x, n = nxt(I, st, n)
        if not a[2]:
            while x is not None and cbool(I, st, I.apply(st, f, [I.new(st, x[0], 'it')])): x, n = nxt(I, st, n)
        return x, It('skip_while', n, f, True)
    if k == 'flat_map':
        n, f, cur = a
        while True:
            if cur is not None:
                x, cur = nxt(I, st, cur)
                if x is not None: return x, It('flat_map', n, f, cur)
                cur = None
            x, n = nxt(I, st, n)
            if x is None: return None, It('flat_map', n, f, None)
            cur = to_iter(I, st, I.apply(st, f, [x[0]]) if f is not None else x[0])
    if k == 'peek':
        if a[1] is not None: return a[1][0], It('peek', a[0], None)
        x, n = nxt(I, st, a[0])
        return x, It('peek', n, None)
    if k == 'rev':
        return nxt(I, st, It('vals', tuple(drain(I, st, a[0]))[::-1], 0))
    if k == 'inspect':
        x, n = nxt(I, st, a[0])
        if x is not None: I.apply(st, a[1], [I.new(st, x[0], 'it')])
        return x, It('inspect', n, a[1])
    if k == 'scan':
        x, n = nxt(I, st, a[0])
        f = fnref(I, st, a[2]); s = a[1]
        if x is None: return None, It('scan', n, s, f)
        y = whnf(I, st, I.apply(st, f, [s, x[0]]))
        if I.discr(st, y) == 0: return None, It('scan', n, s, f)
        return (y.f[0],), It('scan', n, s, f)
    if k == 'successors':
        cur = whnf(I, st, a[0])
        if I.discr(st, cur) == 0: return None, it
        return (cur.f[0],), It('successors', I.apply(st, a[1], [I.new(st, cur.f[0], 'it')]), a[1])
    if k == 'repeat': return (a[0],), it
    if k == 'opaque':
        h = I.hooks.get(('next', a[0]))
        if h: return h(I, st, it)
    raise Unsupported('iterator ' + k)


def fnref(I, st, f):
    """closures called through FnMut keep their state in a cell"""
    if type(f) is Agg: return I.new(st, f, 'c')
    return f


LIMIT = 4096


def drain(I, st, it):
    out = []
    while True:
        x, it = nxt(I, st, it)
        if x is None: return out
        out.append(x[0])
        if len(out) > LIMIT * 64: raise Unsupported('unbounded iterator')


def iter_place(I, st, ref):
    """innermost place holding the iterator value of a `&mut I` receiver"""
    r = whnf(I, st, ref)
    while True:
        v = whnf(I, st, I.load(st, r))
        if type(v) is Ref: r = v; continue
        return r, v


@md('std::iter::Iterator::next')
def _next(I, st, a, ce, t):
    if t is not None and t.get('crate') not in (None, 'std', 'core', 'alloc'):
        return NotImplemented
    r, v = iter_place(I, st, a[0])
    v = to_iter(I, st, v) if type(v) not in (It, Agg) else v
    # an undecided end-of-range test becomes a gated Option instead of a split
    if type(v) is Agg and v.ty is not None and I.p.types[v.ty]['name'].endswith('ops::Range'):
        lo, hi = whnf(I, st, v.f[0]), whnf(I, st, v.f[1])
        c = lt(lo, hi)
        d = c if type(c) is bool else st.ctx.decide(c)
        if d is None:
            if I.iters > I.loop_limit: raise Unsupported('symbolic loop bound')
            I.iters += 1
            I.store(st, r, Agg(v.ty, v.v, (ite(c, iadd(lo, 1), lo), hi)))
            return merge(c, Some(lo), NONE)
        I.iters += 1
    x, n = nxt(I, st, v)
    I.store(st, r, n)
    return NONE if x is None else Some(x[0])


@md('std::iter::DoubleEndedIterator::next_back')
def _nextback(I, st, a, ce, t):
    r, v = iter_place(I, st, a[0])
    if type(v) is Agg and I.p.types[v.ty]['name'].endswith('ops::Range'):
        if not cbool(I, st, lt(v.f[0], v.f[1])): return NONE
        n = isub(v.f[1], 1)
        I.store(st, r, Agg(v.ty, v.v, (v.f[0], n)))
        return Some(n)
    its = drain(I, st, v)
    if not its: return NONE
    I.store(st, r, It('vals', tuple(its[:-1]), 0))
    return Some(its[-1])


def adapt(name, build):
    def f(I, st, a, ce, t):
        if t is not None and t.get('crate') not in (None, 'std', 'core', 'alloc'): return NotImplemented
        return build(I, st, to_iter(I, st, a[0]), a[1:])
    BYDEF['std::iter::Iterator::' + name] = f


adapt('map', lambda I, st, it, a: It('map', it, fnref(I, st, a[0])))
adapt('filter', lambda I, st, it, a: It('filter', it, fnref(I, st, a[0])))
adapt('filter_map', lambda I, st, it, a: It('filter_map', it, fnref(I, st, a[0])))
adapt('flat_map', lambda I, st, it, a: It('flat_map', it, fnref(I, st, a[0]), None))
adapt('flatten', lambda I, st, it, a: It('flat_map', it, None, None))
adapt('enumerate', lambda I, st, it, a: It('enum', it, 0))
adapt('zip', lambda I, st, it, a: It('zip', it, to_iter(I, st, a[0])))
adapt('cloned', lambda I, st, it, a: It('cloned', it))
adapt('copied', lambda I, st, it, a: It('cloned', it))
adapt('take', lambda I, st, it, a: It('take', it, a[0]))
adapt('skip', lambda I, st, it, a: It('skip', it, a[0]))
adapt('step_by', lambda I, st, it, a: It('step_by', it, cint(I, st, a[0]), True))
adapt('chain', lambda I, st, it, a: It('chain', it, to_iter(I, st, a[0])))
adapt('take_while', lambda I, st, it, a: It('take_while', it, fnref(I, st, a[0]), False))
adapt('skip_while', lambda I, st, it, a: It('skip_while', it, fnref(I, st, a[0]), False))
adapt('peekable', lambda I, st, it, a: It('peek', it, None))
adapt('inspect', lambda I, st, it, a: It('inspect', it, fnref(I, st, a[0])))
adapt('fuse', lambda I, st, it, a: it)
adapt('by_ref', lambda I, st, it, a: it)
adapt('scan', lambda I, st, it, a: It('scan', it, I.new(st, a[0], 'sc'), fnref(I, st, a[1])))


def _rev(I, st, it, a):
    return It('vals', tuple(drain(I, st, it))[::-1], 0)


adapt('rev', _rev)


@md('std::iter::repeat')
def _rep(I, st, a, ce, t): return It('repeat', a[0])


@md('std::iter::repeat_n')
def _repn(I, st, a, ce, t): return It('take', It('repeat', a[0]), a[1])


@md('std::iter::once')
def _once(I, st, a, ce, t): return It('vals', (a[0],), 0)


@md('std::iter::empty')
def _empty(I, st, a, ce, t): return It('vals', (), 0)


@md('std::iter::successors')
def _succ(I, st, a, ce, t): return It('successors', a[0], fnref(I, st, a[1]))


@md('std::iter::zip')
def _zipf(I, st, a, ce, t): return It('zip', to_iter(I, st, a[0]), to_iter(I, st, a[1]))


@m('std::iter::Peekable::peek')
def _peek(I, st, a, ce, t):
    r, v = iter_place(I, st, a[0])
    if v.a[1] is None:
        x, n = nxt(I, st, v.a[0])
        v = It('peek', n, (x,))
        I.store(st, r, v)
    x = v.a[1][0]
    return NONE if x is None else Some(I.new(st, x[0], 'pk'))


def consume(name):
    def d(f):
        def g(I, st, a, ce, t):
            if t is not None and t.get('crate') not in (None, 'std', 'core', 'alloc'): return NotImplemented
            it = whnf(I, st, a[0])
            back = None
            if type(it) is Ref:
                r, v = iter_place(I, st, it)
                if type(v) is It or (type(v) is Agg and v.ty is not None and 'Range' in I.p.types[v.ty].get('name', '')): back = It('byref', r)
            return f(I, st, back if back is not None else to_iter(I, st, it), a[1:], ce, t)
        BYDEF['std::iter::Iterator::' + name] = g
        return f
    return d


@consume('collect')
def _collect(I, st, it, a, ce, t):
    # target type: return type of the call = 2nd generic argument
    ty = I.p.types[ce['args'][-1]]
    name = ty.get('name', '')
    if name.endswith('HashMap') or name.endswith('BTreeMap'):
        its = drain(I, st, it)
        r = I.new(st, Map((), 'bt' if 'BTree' in name else None), 'm')
        for kv in its:
            kv = whnf(I, st, kv); map_insert(I, st, r, kv.f[0], kv.f[1])
        return I.load(st, r)
    if name.endswith('HashSet') or name.endswith('BTreeSet'):
        its = drain(I, st, it)
        r = I.new(st, Map((), 'bset' if 'BTree' in name else 'set'), 'm')
        for k in its: map_insert(I, st, r, k, UNIT)
        return I.load(st, r)
    if name.endswith('String'):
        out = []
        for x in drain(I, st, it):
            y = deref(I, st, x)
            if type(y) is Str: out.extend(y.p)
            elif type(y) is int: out.append(chr(y))
            else: out.append(('char', y))
        return Str(out)
    h = I.hooks.get(('collect',))
    if h:
        r = h(I, st, it)
        if r is not NotImplemented: return r
    if name.endswith('Option') or name.endswith('Result'):
        out = []
        good = 1 if name.endswith('Option') else 0
        for x in drain(I, st, it):
            x = whnf(I, st, x)
            if I.discr(st, x) != good: return x
            out.append(x.f[0])
        return Agg(None, good, (Vec(out),))
    return Vec(drain(I, st, it))


def fold_sum(I, st, it, ce, f, z):
    ty = I.p.types[ce['args'][-1]]
    acc = float(z) if ty['k'] == 'float' else z
    for x in drain(I, st, it): acc = f(acc, deref(I, st, x))
    return acc


@consume('sum')
def _sum(I, st, it, a, ce, t):
    fl = I.p.types[ce['args'][-1]]['k'] == 'float'
    return fold_sum(I, st, it, ce, fadd if fl else iadd, 0)


@consume('product')
def _prod(I, st, it, a, ce, t):
    fl = I.p.types[ce['args'][-1]]['k'] == 'float'
    return fold_sum(I, st, it, ce, fmul if fl else imul, 1)


@consume('fold')
def _fold(I, st, it, a, ce, t):
    acc = a[0]; f = fnref(I, st, a[1])
    while True:
        x, it = nxt(I, st, it)
        if x is None: return acc
        acc = I.apply(st, f, [acc, x[0]])


@consume('try_fold')
def _tryfold(I, st, it, a, ce, t): raise Unsupported('try_fold')


@consume('reduce')
def _reduce(I, st, it, a, ce, t):
    x, it = nxt(I, st, it)
    if x is None: return NONE
    acc = x[0]; f = fnref(I, st, a[0])
    while True:
        x, it = nxt(I, st, it)
        if x is None: return Some(acc)
        acc = I.apply(st, f, [acc, x[0]])


@consume('for_each')
def _foreach(I, st, it, a, ce, t):
    f = fnref(I, st, a[0])
    while True:
        x, it = nxt(I, st, it)
        if x is None: return UNIT
        I.apply(st, f, [x[0]])


@consume('count')
def _count(I, st, it, a, ce, t): return len(drain(I, st, it))


@consume('last')
def _ilast(I, st, it, a, ce, t):
    d = drain(I, st, it)
    return Some(d[-1]) if d else NONE


@consume('nth')
def _nth(I, st, it, a, ce, t):
    n = cint(I, st, a[0])
    for _ in range(n + 1):
        x, it = nxt(I, st, it)
        if x is None: return NONE
    return Some(x[0])


@consume('any')
def _any(I, st, it, a, ce, t):
    f = fnref(I, st, a[0]); r = False
    while True:
        x, it = nxt(I, st, it)
        if x is None: return r
        r = b_or(r, scalar(I, st, I.apply(st, f, [x[0]])))
        if r is True: return True


@consume('all')
def _all(I, st, it, a, ce, t):
    f = fnref(I, st, a[0]); r = True
    while True:
        x, it = nxt(I, st, it)
        if x is None: return r
        r = b_and(r, scalar(I, st, I.apply(st, f, [x[0]])))
        if r is False: return False


def scalar(I, st, v):
    v = I.resolve(st, v)
    if type(v) is Choice: raise NeedSplit(v.c)
    return v


@consume('find')
def _find(I, st, it, a, ce, t):
    f = fnref(I, st, a[0])
    while True:
        x, it = nxt(I, st, it)
        if x is None: return NONE
        if cbool(I, st, I.apply(st, f, [I.new(st, x[0], 'it')])): return Some(x[0])


@consume('find_map')
def _findmap(I, st, it, a, ce, t):
    f = fnref(I, st, a[0])
    while True:
        x, it = nxt(I, st, it)
        if x is None: return NONE
        y = whnf(I, st, I.apply(st, f, [x[0]]))
        if I.discr(st, y) == 1: return y


@consume('position')
def _position(I, st, it, a, ce, t):
    f = fnref(I, st, a[0]); i = 0
    while True:
        x, it = nxt(I, st, it)
        if x is None: return NONE
        if cbool(I, st, I.apply(st, f, [x[0]])): return Some(i)
        i += 1


def _minmax(which):
    def f(I, st, it, a, ce, t):
        x, it = nxt(I, st, it)
        if x is None: return NONE
        best = x[0]
        while True:
            x, it = nxt(I, st, it)
            if x is None: return Some(best)
            p, q = deref(I, st, best), deref(I, st, x[0])
            c = lt(q, p) if which == 'min' else le(p, q)
            best = merge(c, x[0], best)
    return f


def _minmaxby(which, key):
    def f(I, st, it, a, ce, t):
        fn = fnref(I, st, a[0])
        x, it = nxt(I, st, it)
        if x is None: return NONE
        best = x[0]
        while True:
            x, it = nxt(I, st, it)
            if x is None: return Some(best)
            if key:
                p, q = (I.apply(st, fn, [I.new(st, v, 'it')]) for v in (best, x[0]))
                c = lt(q, p) if which == 'min' else le(p, q)
            else:
                o = I.discr(st, whnf(I, st, I.apply(st, fn, [I.new(st, best, 'it'), I.new(st, x[0], 'it')])))
                c = eq(o, 1) if which == 'min' else ne(o, 1)
            d = c if type(c) is bool else st.ctx.decide(c)
            if d is True: best = x[0]
            elif d is None:
                try: best = merge(c, x[0], best)
                except Exception: raise NeedSplit(c)
    return f


consume('min')(_minmax('min')); consume('max')(_minmax('max'))
consume('min_by')(_minmaxby('min', False)); consume('max_by')(_minmaxby('max', False))
consume('min_by_key')(_minmaxby('min', True)); consume('max_by_key')(_minmaxby('max', True))


@consume('unzip')
def _unzip(I, st, it, a, ce, t):
    d = [whnf(I, st, x) for x in drain(I, st, it)]
    return Agg(None, 0, (Vec(x.f[0] for x in d), Vec(x.f[1] for x in d)))


@consume('partition')
def _partition(I, st, it, a, ce, t):
    f = fnref(I, st, a[0]); p, q = [], []
    for x in drain(I, st, it):
        (p if cbool(I, st, I.apply(st, f, [I.new(st, x, 'it')])) else q).append(x)
    return Agg(None, 0, (Vec(p), Vec(q)))


@consume('size_hint')
def _sh(I, st, it, a, ce, t): raise Unsupported('size_hint')


@md('std::iter::ExactSizeIterator::len')
def _esl(I, st, a, ce, t):
    it = deref(I, st, a[0])
    if type(it) is It and it.k == 'vals': return len(it.a[0]) - it.a[1]
    if type(it) is It and it.k == 'seq': return isub(it.a[2], it.a[1])
    return len(drain(I, st, it))


@md('std::iter::FromIterator::from_iter')
def _fromiter(I, st, a, ce, t):
    return _collect(I, st, to_iter(I, st, a[0]), [], {'args': [ce['args'][0]]}, t)


@m('std::ops::RangeInclusive::new')
def _rinew(I, st, a, ce, t):
    ty = t['locals'][0]
    return Agg(ty, 0, (a[0], a[1], False))


@pat(r'std::ops::(Range|RangeInclusive|RangeFrom|RangeTo)::contains|std::ops::range::.*::contains')
def _rcontains(I, st, a, ce, t):
    r = deref(I, st, a[0]); x = deref(I, st, a[1])
    name = I.p.types[r.ty]['name']
    if name.endswith('RangeInclusive'): return b_and(le(r.f[0], x), le(x, r.f[1]))
    if name.endswith('RangeFrom'): return le(r.f[0], x)
    if name.endswith('RangeTo'): return lt(x, r.f[0])
    return b_and(le(r.f[0], x), lt(x, r.f[1]))


@md('std::array::from_fn', 'core::array::from_fn')
def _afn(I, st, a, ce, t):
    ty = I.p.types[t['locals'][0]]
    f = fnref(I, st, a[0])
    return Vec([I.apply(st, f, [i]) for i in range(ty['len'])])


@pat(r'(std|core)::array::<impl \[T; N\]>::map')
def _amap(I, st, a, ce, t):
    v = whnf(I, st, a[0])
    f = fnref(I, st, a[1])
    return Vec([I.apply(st, f, [x]) for x in v.f])


# ------------------------------------------------------------------ equality

def eq_inst(I, name):
    c = I.p.__dict__.setdefault('_eq_ix', {})
    if name not in c:
        c[name] = next((i['ix'] for i in I.p.insts if i['sdef'] == '<%s as std::cmp::PartialEq>::eq' % name and 'blocks' in i), None)
    return c[name]


def val_eq(I, st, x, y):
    x, y = whnf(I, st, x), whnf(I, st, y)
    if is_scalar(x) and is_scalar(y): return eq(x, y)
    if type(x) is Ref: x = deref(I, st, x)
    if type(y) is Ref: y = deref(I, st, y)
    if is_scalar(x) and is_scalar(y): return eq(x, y)
    if type(x) is Vec and type(y) is Vec:
        if len(x.f) != len(y.f): return False
        return b_and(*[val_eq(I, st, p, q) for p, q in zip(x.f, y.f)])
    if type(x) is Agg and type(y) is Agg:
        if x.ty is not None:
            ix = eq_inst(I, I.p.types[x.ty].get('name', ''))
            if ix is not None: return with_refs(I, st, [x, y], lambda r: I.call_inst(st, ix, r))
        if x.v != y.v: return False
        return b_and(*[val_eq(I, st, p, q) for p, q in zip(x.f, y.f)])
    if type(x) is Str and type(y) is Str: return str_eq(x, y)
    if type(x) is Map and type(y) is Map:
        if len(x.e) != len(y.e): return False
        r = True
        for k, v in x.e:
            hit = False
            for k2, v2 in y.e: hit = b_or(hit, b_and(val_eq(I, st, k, k2), val_eq(I, st, v, v2)))
            r = b_and(r, hit)
        return r
    if type(x) is Opq and type(y) is Opq and x == y: return True
    if type(x) is Opq or type(y) is Opq:
        h = I.hooks.get(('eq',))
        if h: return h(I, st, x, y)
    raise Unsupported('equality of %r and %r' % (x, y))


def str_eq(x, y):
    if x.p == y.p: return True
    if all(type(p) is str for p in x.p + y.p): return ''.join(x.p) == ''.join(y.p)
    return uf('streq', 'b', strterm(x) + strterm(y))


@pat(r'<std::vec::Vec<.*> as std::cmp::PartialEq.*>::eq|(core|std)::(slice|array)::.*<impl std::cmp::PartialEq<.*> for .*>::eq|std::vec::partial_eq::.*::eq|core::array::equality::.*::eq|<std::collections::(HashMap|BTreeMap|HashSet)<.*> as std::cmp::PartialEq>::eq|<std::string::String as std::cmp::PartialEq.*>::eq|(core|std|alloc)::str.*::<impl std::cmp::PartialEq.*>::eq|std::tuple::<impl std::cmp::PartialEq for .*>::eq|std::string::<impl std::cmp::PartialEq.*>::eq')
def _eqm(I, st, a, ce, t): return val_eq(I, st, deref(I, st, a[0]), deref(I, st, a[1]))


@pat(r'<std::vec::Vec<.*> as std::cmp::PartialEq.*>::ne|<std::string::String as std::cmp::PartialEq.*>::ne|(core|std|alloc)::str.*::<impl std::cmp::PartialEq.*>::ne')
def _nem(I, st, a, ce, t): return b_not(val_eq(I, st, deref(I, st, a[0]), deref(I, st, a[1])))


# ------------------------------------------------------------------ maps

@m('std::collections::HashMap::new', 'std::collections::HashMap::with_capacity', '<std::collections::HashMap<K, V, S> as std::default::Default>::default')
def _mnew(I, st, a, ce, t): return Map(())


@m('std::collections::BTreeMap::new', '<std::collections::BTreeMap<K, V> as std::default::Default>::default')
def _btnew(I, st, a, ce, t): return Map((), 'bt')


@m('std::collections::HashSet::new', 'std::collections::HashSet::with_capacity')
def _setnew(I, st, a, ce, t): return Map((), 'set')


@m('std::collections::BTreeSet::new')
def _bsetnew(I, st, a, ce, t): return Map((), 'bset')


def mapplace(I, st, v):
    r = place_of(I, st, v)
    x = whnf(I, st, I.load(st, r)) if type(r) is Ref else r
    return r, x


def find_key(I, st, mp, k):
    """index of the entry equal to k or None; splits on undecided equality"""
    k = deref(I, st, k)
    cand = candidates(I, st, mp, k) if len(mp.e) > 12 else None
    for i in (range(len(mp.e)) if cand is None else cand):
        c = val_eq(I, st, mp.e[i][0], k)
        if cbool(I, st, c): return i
    return None


def fed(I, st, k):
    """the (known) values a key feeds to a hasher, or None"""
    if type(k) in (int, bool): return (k,)
    if type(k) is Str and all(type(p) is str for p in k.p): return (''.join(k.p),)
    if type(k) is not Agg or k.ty is None: return None
    memo = I.__dict__.setdefault('_fed', {})
    r = memo.get(id(k))
    if r is not None: return r[1]
    name = I.p.types[k.ty].get('name', '')
    ixs = I.p.__dict__.setdefault('_hash_ix', {})
    if name not in ixs: ixs[name] = next((i['ix'] for i in I.p.insts if i['sdef'] == '<%s as std::hash::Hash>::hash' % name and 'blocks' in i), None)
    out = None
    if ixs[name] is not None:
        s2 = st.fork(); s2.mem[('hashtrace', 0)] = Vec(())
        try:
            I.call_inst(s2, ixs[name], [I.new(s2, k, 'hk'), I.new(s2, Agg(None, 0, (0,)), 'hh')])
            f = s2.mem[('hashtrace', 0)].f
            if all(type(x) in (int, bool) for x in f): out = tuple(f)
        except (Unsupported, NeedSplit): out = None
    memo[id(k)] = (k, out)
    return out


def candidates(I, st, mp, k):
    """entries whose key feeds the hasher the same values as k: a hash map finds no others"""
    f = fed(I, st, k)
    if f is None: return None
    memo = I.__dict__.setdefault('_mapix', {})
    r = memo.get(id(mp.e))
    if r is None:
        ix = {}
        for i, (kk, _) in enumerate(mp.e):
            g = fed(I, st, kk)
            if g is None: ix = None; break
            ix.setdefault(g, []).append(i)
        if len(memo) > 2000: memo.clear()
        memo[id(mp.e)] = r = (mp.e, ix)
    return None if r[1] is None else r[1].get(f, ())


def map_insert(I, st, r, k, v):
    mp = whnf(I, st, I.load(st, r))
    i = find_key(I, st, mp, k)
    if i is not None:
        e = list(mp.e); old = e[i][1]; e[i] = (e[i][0], v)
        I.store(st, r, Map(e, mp.kty))
        return Some(old)
    I.store(st, r, Map(mp.e + ((k, v),), mp.kty))
    return NONE


@m('std::collections::HashMap::insert', 'std::collections::BTreeMap::insert')
def _minsert(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0])
    if type(mp) is Opq:
        h = I.hooks.get(('minsert', mp.name))
        if h: return h(I, st, r, mp, a[1], a[2])
    if type(mp) is not Map: raise Unsupported('insert into %r' % (mp,))
    return map_insert(I, st, r, a[1], a[2])


@m('std::collections::HashSet::insert', 'std::collections::BTreeSet::insert')
def _sinsert(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0])
    return I.discr(st, map_insert(I, st, r, a[1], UNIT)) == 0


@m('std::collections::HashSet::contains', 'std::collections::HashMap::contains_key', 'std::collections::BTreeSet::contains', 'std::collections::BTreeMap::contains_key')
def _mcontains(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0])
    if type(mp) is Opq:
        h = I.hooks.get(('mcontains', mp.name))
        if h: return h(I, st, mp, a[1])
    if type(mp) is not Map: raise Unsupported('contains on %r' % (mp,))
    return find_key(I, st, mp, a[1]) is not None


@m('std::collections::HashMap::get', 'std::collections::HashMap::get_mut', 'std::collections::BTreeMap::get', 'std::collections::BTreeMap::get_mut')
def _mget(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0])
    if type(mp) is Opq:
        h = I.hooks.get(('mget', mp.name))
        if h: return h(I, st, mp, a[1])
    if type(mp) is not Map: raise Unsupported('get on %r' % (mp,))
    i = find_key(I, st, mp, a[1])
    return NONE if i is None else Some(Ref(r.key, r.path + (('mv', i),)))


@m('std::collections::HashMap::remove', 'std::collections::BTreeMap::remove')
def _mremove(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0])
    i = find_key(I, st, mp, a[1])
    if i is None: return NONE
    I.store(st, r, Map(mp.e[:i] + mp.e[i + 1:], mp.kty))
    return Some(mp.e[i][1])


@pat(r'<std::collections::(HashMap|BTreeMap)<.*> as std::ops::Index<.*>>::index')
def _mindex(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0])
    if type(mp) is Opq:
        h = I.hooks.get(('mindex', mp.name))
        if h: return h(I, st, mp, a[1])
    if type(mp) is not Map: raise Unsupported('index of %r' % (mp,))
    i = find_key(I, st, mp, a[1])
    if i is None: panic(I, st, 'index:missing key')
    return Ref(r.key, r.path + (('mv', i),))


@m('std::collections::HashMap::len', 'std::collections::BTreeMap::len', 'std::collections::HashSet::len', 'std::collections::BTreeSet::len')
def _mlen(I, st, a, ce, t): return I.len_of(st, deref(I, st, a[0]))


@m('std::collections::HashMap::clear', 'std::collections::BTreeMap::clear')
def _mclear(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0]); I.store(st, r, Map((), mp.kty if type(mp) is Map else None)); return UNIT


@m('std::collections::HashMap::keys', 'std::collections::BTreeMap::keys')
def _mkeys(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0])
    if type(mp) is Opq:
        h = I.hooks.get(('mkeys', mp.name))
        if h: return h(I, st, mp)
    return It('vals', tuple(Ref(r.key, r.path + (('mk', i),)) for i in entry_order(I, st, mp)), 0)


@m('std::collections::HashMap::values', 'std::collections::HashMap::values_mut', 'std::collections::BTreeMap::values')
def _mvals(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0])
    if type(mp) is Opq:
        h = I.hooks.get(('mvalues', mp.name))
        if h: return h(I, st, mp)
    return It('vals', tuple(Ref(r.key, r.path + (('mv', i),)) for i in entry_order(I, st, mp)), 0)


@m('std::collections::HashMap::into_keys', 'std::collections::BTreeMap::into_keys')
def _mikeys(I, st, a, ce, t):
    mp = whnf(I, st, a[0])
    return It('vals', tuple(mp.e[i][0] for i in entry_order(I, st, mp)), 0)


@m('std::collections::HashMap::into_values', 'std::collections::BTreeMap::into_values')
def _mivals(I, st, a, ce, t):
    mp = whnf(I, st, a[0])
    return It('vals', tuple(mp.e[i][1] for i in entry_order(I, st, mp)), 0)


@m('std::collections::HashMap::iter', 'std::collections::HashMap::iter_mut', 'std::collections::BTreeMap::iter', 'std::collections::HashSet::iter', 'std::collections::BTreeSet::iter')
def _miter(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0])
    return to_iter(I, st, r if type(r) is Ref else mp)


@m('std::collections::HashMap::entry', 'std::collections::BTreeMap::entry')
def _mentry(I, st, a, ce, t):
    r, mp = mapplace(I, st, a[0])
    return Opq('entry', (r, a[1]))


def entry_slot(I, st, e):
    """(ref of slot or None)"""
    r, k = e.a
    mp = whnf(I, st, I.load(st, r))
    if type(mp) is Opq: return None, mp
    if type(mp) is not Map: raise Unsupported('entry of %r' % (mp,))
    i = find_key(I, st, mp, k)
    return (None if i is None else Ref(r.key, r.path + (('mv', i),))), mp


def entry_insert(I, st, e, v):
    r, k = e.a
    mp = I.load(st, r)
    I.store(st, r, Map(mp.e + ((k, v),), mp.kty))
    return Ref(r.key, r.path + (('mv', len(mp.e)),))


@m('std::collections::hash_map::Entry::or_insert', 'std::collections::btree_map::Entry::or_insert')
def _oi(I, st, a, ce, t):
    e = whnf(I, st, a[0])
    s, mp = entry_slot(I, st, e)
    if type(mp) is Opq:
        h = I.hooks.get(('or_insert', mp.name))
        if h: return h(I, st, e, mp, a[1], None)
        raise Unsupported('entry of opaque map')
    return s if s is not None else entry_insert(I, st, e, a[1])


@m('std::collections::hash_map::Entry::or_insert_with', 'std::collections::btree_map::Entry::or_insert_with')
def _oiw(I, st, a, ce, t):
    e = whnf(I, st, a[0])
    s, mp = entry_slot(I, st, e)
    if type(mp) is Opq:
        h = I.hooks.get(('or_insert', mp.name))
        if h: return h(I, st, e, mp, None, a[1])
        raise Unsupported('entry of opaque map')
    return s if s is not None else entry_insert(I, st, e, I.apply(st, a[1], []))


@m('std::collections::hash_map::Entry::or_default')
def _od(I, st, a, ce, t):
    e = whnf(I, st, a[0])
    s, mp = entry_slot(I, st, e)
    if s is not None: return s
    ty = None
    for x in ce.get('args', []):
        pass
    vt = I.p.types[ce['args'][-1]] if ce.get('args') else None
    for x in reversed(ce.get('args', [])):
        k = I.p.types[x]
        if k['k'] in ('int', 'float', 'bool') or k.get('name', '').endswith('Vec'): vt = k; break
    z = {'int': 0, 'float': 0.0, 'bool': False}.get(vt['k']) if vt else None
    if z is None:
        if vt and vt.get('name', '').endswith('Vec'): z = Vec(())
        else: raise Unsupported('or_default')
    return entry_insert(I, st, e, z)


@m('std::collections::hash_map::Entry::and_modify', 'std::collections::btree_map::Entry::and_modify')
def _am(I, st, a, ce, t):
    e = whnf(I, st, a[0])
    s, mp = entry_slot(I, st, e)
    if type(mp) is Opq:
        h = I.hooks.get(('and_modify', mp.name))
        if h: return h(I, st, e, mp, a[1])
        raise Unsupported('entry of opaque map')
    if s is not None: I.apply(st, a[1], [s])
    return e


# ------------------------------------------------------------------ strings and formatting

@m('<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str', '<std::string::String as std::convert::AsRef<str>>::as_ref', 'std::string::String::as_mut_str', '<std::string::String as std::borrow::Borrow<str>>::borrow')
def _sderef(I, st, a, ce, t): return deref(I, st, a[0])


@pat(r'<T as std::string::ToString>::to_string|std::str::<impl std::borrow::ToOwned for str>::to_owned|<std::string::String as std::convert::From<&.*str>>::from|std::str::<impl str>::to_string|std::string::ToString::to_string|std::str::<impl str>::to_owned|<str as std::string::.*>::.*|<std::string::String as std::convert::From<.*>>::from')
def _tostring(I, st, a, ce, t):
    v = whnf(I, st, a[0])
    d = deref(I, st, v)
    if type(d) is Str: return d
    if type(d) is Opq: return d
    ty = I.p.types[ce['args'][0]] if ce.get('args') else None
    return Str((display(I, st, v, d),))


def display(I, st, v, d):
    if is_scalar(d):
        if type(d) is int: return str(d)
        return ('disp', d)
    if type(d) is Str: return d
    return ('disp', d)


@m('std::string::String::new', '<std::string::String as std::default::Default>::default')
def _snew(I, st, a, ce, t): return Str(())


@m('std::string::String::with_capacity')
def _scap(I, st, a, ce, t): return Str(())


@m('std::string::String::push_str')
def _pushstr(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0]); s = deref(I, st, a[1])
    I.store(st, r, Str(x.p + s.p)); return UNIT


@m('std::string::String::push')
def _pushch(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0]); c = whnf(I, st, a[1])
    I.store(st, r, Str(x.p + (tochar(c),))); return UNIT


@pat(r'<std::string::String as std::ops::Add<.*>>::add')
def _sadd(I, st, a, ce, t):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    return Str(x.p + y.p)


@pat(r'<std::string::String as std::ops::AddAssign<.*>>::add_assign')
def _sadda(I, st, a, ce, t):
    r, x = vecplace(I, st, a[0]); s = deref(I, st, a[1])
    I.store(st, r, Str(x.p + s.p)); return UNIT


@pat(r'core::fmt::rt::Argument::new_(\w+)')
def _farg(I, st, a, ce, t):
    return Opq('fmtarg', (t['sdef'].split('new_')[-1], a[0], ce['args'][0] if ce.get('args') else None))


@m('std::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str')
def _afs(I, st, a, ce, t): return Opq('fmtargs', (deref(I, st, a[0]), ()))


@m('std::fmt::Arguments::new', 'core::fmt::Arguments::new')
def _anew(I, st, a, ce, t):
    tpl = deref(I, st, a[0])
    ar = deref(I, st, a[1])
    return Opq('fmtargs', (tpl, tuple(ar.f)))


def parse_template(b):
    """new-style fmt template: list of literal bytes / ('arg', index, flags, width, prec)"""
    out = []
    i = 0
    ai = 0
    while i < len(b):
        c = b[i]
        if c == 0: break
        if c < 0x80:
            out.append(bytes(b[i + 1:i + 1 + c]).decode()); i += 1 + c; continue
        if c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(bytes(b[i + 3:i + 3 + n]).decode()); i += 3 + n; continue
        if c & 0xC0 != 0xC0: raise Unsupported('fmt template')
        i += 1
        fl = width = prec = None
        if c & 1: fl = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24; i += 4
        if c & 2: width = b[i] | b[i + 1] << 8; i += 2
        if c & 4: prec = b[i] | b[i + 1] << 8; i += 2
        if c & 8: ai = b[i] | b[i + 1] << 8; i += 2
        if c & 0x30: raise Unsupported('fmt dynamic width')
        out.append(('arg', ai, fl, width, prec)); ai += 1
    return out


def render(I, st, fa):
    tpl, ars = fa.a
    if type(tpl) is Str: return tpl
    if type(tpl) is not Vec: raise Unsupported('fmt template %r' % (tpl,))
    out = []
    for p in parse_template(list(tpl.f)):
        if type(p) is str: out.append(p); continue
        arg = ars[p[1]]
        kind, v, ty = arg.a
        d = deref(I, st, v)
        if type(d) is Str and kind == 'display' and p[3] is None: out.extend(d.p); continue
        if kind == 'display' and is_scalar(d):
            if type(d) is int and p[3] is None: out.append(str(d)); continue
        if kind == 'display' and type(d) is Agg:
            # user Display impl
            n = I.p.types[d.ty]['name'] if d.ty is not None else ''
            out.append(('display:' + n,) + tuple(x for x in d.f if is_scalar(x))); continue
        fl = p[2]
        zero = bool(fl is not None and fl & (1 << 24))
        if type(d) is int and kind in ('lower_hex', 'upper_hex'):
            s = '%x' % (d & (2 ** 64 - 1))
            if kind == 'upper_hex': s = s.upper()
            if p[3] is not None: s = s.rjust(p[3], '0' if zero else ' ')
            out.append(s); continue
        if is_scalar(d): out.append((kind, d, p[3], fl, p[4])); continue
        out.append(('fmt:' + kind, h64(repr(d))))
    return Str(out)


@m('std::fmt::format', 'alloc::fmt::format')
def _fmt(I, st, a, ce, t): return render(I, st, whnf(I, st, a[0]))


@pat(r'std::fmt::Formatter::(write_fmt|write_str|pad)')
def _fwrite(I, st, a, ce, t):
    I.events.append(('fmtwrite',))
    return Ok(UNIT)


@m('std::str::<impl str>::to_uppercase', 'std::str::<impl str>::to_ascii_uppercase', 'std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_ascii_lowercase')
def _case(I, st, a, ce, t):
    up = 'upper' in t['sdef']
    s = deref(I, st, a[0])
    if type(s) is Opq: return Opq('upper' if up else 'lower', (s,))
    out = []
    for p in s.p:
        if type(p) is str: out.append(p.upper() if up else p.lower())
        elif p[0] in ('lower_hex', 'upper_hex'): out.append(('upper_hex' if up else 'lower_hex',) + p[1:])
        elif p[0] == 'hd': out.append(('hd', up, p[2]))
        else: out.append(('upper' if up else 'lower', p))
    return Str(out)


def charpred(I, st, p, raw):
    """a set of characters or a predicate as a pattern"""
    def one(ch):
        if type(p) is Vec:
            v = b_or(*[eq(scode(ch), x) for x in p.f])
        else: v = I.apply(st, raw, [scode(ch)])
        v = whnf(I, st, v)
        if type(v) is T: v = st.ctx.decide(v)
        if type(v) is not bool: raise Unsupported('character pattern on a symbolic digit')
        return v
    return one


def trim_by(I, st, n, s, p, raw, rest):
    cs = schars(s) if type(s) is Str else None
    if type(s) is Str and all(type(x) is str for x in s.p): cs = list(''.join(s.p))
    if cs is None:
        if type(s) is Opq and not n.startswith('strip') and n != 'replace': return Opq(n, (s, 'pattern'))
        raise Unsupported('pattern %r' % (p,))
    f = charpred(I, st, p, raw)
    if n in ('trim_start_matches', 'trim_matches'):
        while cs and f(cs[0]): cs = cs[1:]
    if n in ('trim_end_matches', 'trim_matches'):
        while cs and f(cs[-1]): cs = cs[:-1]
    if n == 'strip_prefix': return Some(sjoin(cs[1:])) if cs and f(cs[0]) else NONE
    if n == 'strip_suffix': return Some(sjoin(cs[:-1])) if cs and f(cs[-1]) else NONE
    if n == 'replace':
        to = list(''.join(rest[0].p)); out = []
        for c in cs: out += to if f(c) else [c]
        cs = out
    return sjoin(cs)


@pat(r'core::str::<impl str>::(trim_start_matches|trim_end_matches|trim_matches|trim|trim_start|trim_end|replace|strip_prefix|strip_suffix)|std::str::<impl str>::(replace|replacen)')
def _trim(I, st, a, ce, t):
    n = t['sdef'].split('::')[-1]
    s = deref(I, st, a[0])
    ps = [deref(I, st, x) for x in a[1:]]
    pv = []
    for p in ps:
        if type(p) is Str: pv.append(''.join(p.p))
        elif type(p) is int: pv.append(chr(p))
        else: return trim_by(I, st, n, s, p, a[1], ps[1:])
    if type(s) is Str and all(type(x) is str for x in s.p):
        x = ''.join(s.p)
        if n == 'trim_start_matches':
            while pv[0] and x.startswith(pv[0]): x = x[len(pv[0]):]
            return Str((x,))
        if n == 'replace': return Str((x.replace(pv[0], pv[1]),))
        if n == 'strip_prefix': return Some(Str((x[len(pv[0]):],))) if x.startswith(pv[0]) else NONE
        if n in ('trim',): return Str((x.strip(),))
        if n == 'trim_start': return Str((x.lstrip(),))
        if n == 'trim_end': return Str((x.rstrip(),))
        if n == 'strip_suffix': return Some(Str((x[:-len(pv[0])],))) if pv[0] and x.endswith(pv[0]) else NONE
        if n in ('trim_end_matches', 'trim_matches'):
            while n == 'trim_matches' and pv[0] and x.startswith(pv[0]): x = x[len(pv[0]):]
            while pv[0] and x.endswith(pv[0]): x = x[:-len(pv[0])]
            return Str((x,))
    cs = schars(s)
    if cs is not None and len(pv) == 1 and len(pv[0]) == 1 and pv[0] not in '0123456789abcdefABCDEF':
        q = pv[0]
        if n in ('trim_start_matches', 'trim_matches'):
            while cs and cs[0] == q: cs = cs[1:]
        if n in ('trim_end_matches', 'trim_matches'):
            while cs and cs[-1] == q: cs = cs[:-1]
        if n == 'strip_prefix': return Some(sjoin(cs[1:])) if cs and cs[0] == q else NONE
        if n == 'strip_suffix': return Some(sjoin(cs[:-1])) if cs and cs[-1] == q else NONE
        return sjoin(cs)
    if cs is not None and n in ('trim', 'trim_start', 'trim_end') and cs and cs[0] != ' ' and cs[-1] != ' ': return s
    r = Opq(n, (s,) + tuple(pv))
    if n.startswith('strip'):
        c = uf('has_' + n, 'b', strterm(s) + [h64(pv[0]) % (1 << 40)])
        return merge(c, Some(r), NONE)
    return r


@m('core::str::<impl str>::len', 'std::string::String::len')
def _slen(I, st, a, ce, t):
    s = deref(I, st, a[0])
    if type(s) is Str and all(type(x) is str for x in s.p): return len(''.join(s.p).encode())
    cs = schars(s)
    if cs is not None: return len(cs)
    return uf('strlen', 'i', strterm(s), 0, 1 << 40)


@m('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with', 'core::str::<impl str>::contains')
def _sstarts(I, st, a, ce, t):
    s = deref(I, st, a[0]); p = deref(I, st, a[1])
    n = t['sdef'].split('::')[-1]
    if type(p) not in (int, Str):
        cs = list(''.join(s.p)) if type(s) is Str and all(type(x) is str for x in s.p) else schars(s) if type(s) is Str else None
        if cs is None: raise Unsupported('pattern %r' % (p,))
        f = charpred(I, st, p, a[1])
        return bool(cs) and (f(cs[0]) if n == 'starts_with' else f(cs[-1]) if n == 'ends_with' else any(f(x) for x in cs))
    pv = chr(p) if type(p) is int else ''.join(p.p)
    if type(s) is Str and all(type(x) is str for x in s.p):
        x = ''.join(s.p)
        return {'starts_with': x.startswith(pv), 'ends_with': x.endswith(pv), 'contains': pv in x}[n]
    cs = schars(s)
    if cs and len(pv) == 1 and pv not in '0123456789abcdefABCDEF':
        return {'starts_with': cs[0] == pv, 'ends_with': cs[-1] == pv, 'contains': pv in cs}[n]
    return uf(n, 'b', strterm(s) + [h64(pv) % (1 << 40)])


def tochar(c):
    """a code point as a character; a gated hex digit is recognised"""
    if type(c) is int: return chr(c)
    if c.op == 'ite':
        for up, o in ((True, 55), (False, 87)):
            d = isub(c.a[1], 48)
            if type(d) is T and c is ite(lt(d, 10), iadd(d, 48), iadd(d, o)): return ('hd', up, d)
    return ('char', c)


def sunits(s):
    """(byte length of each character, character) of a string of known shape; None otherwise"""
    if type(s) is Str and all(type(x) is str for x in s.p): return [(len(c.encode()), c) for c in ''.join(s.p)]
    cs = schars(s)
    return None if cs is None else [(len(c.encode()) if type(c) is str else 1, c) for c in cs]


def scode(c):
    """code point of a character"""
    if type(c) is str: return ord(c)
    if c[0] == 'hd': return ite(lt(c[2], 10), iadd(c[2], 48), iadd(c[2], 55 if c[1] else 87))
    raise Unsupported('character %r' % (c,))


def sslice(I, st, s, idx):
    """(in bounds and on character boundaries, sub-string)"""
    u = sunits(s)
    if u is None: raise Unsupported('slice of unknown text')
    n = sum(k for k, _ in u)
    lo, hi = (cint(I, st, x) for x in range_bounds(I, st, whnf(I, st, idx), n))
    pos = [0]
    for k, _ in u: pos.append(pos[-1] + k)
    if not (lo <= hi and lo in pos and hi in pos): return False, None
    return True, sjoin([c for _, c in u[pos.index(lo):pos.index(hi)]])


@pat(r'(core|std|alloc)::str::.*<impl std::ops::Index(Mut)?<.*> for str>::index(_mut)?|<std::string::String as std::ops::Index(Mut)?<.*>>::index(_mut)?|std::string::.*<impl std::ops::Index<.*> for std::string::String>::index|(core|std)::str::traits::<impl std::slice::SliceIndex<str> for .*>::index(_mut)?')
def _strindex(I, st, a, ce, t):
    i, s = (a[0], a[1]) if 'SliceIndex' in t['sdef'] else (a[1], a[0])
    ok, r = sslice(I, st, deref(I, st, s), i)
    if not ok: panic(I, st, 'panic:string slice out of range or inside a character')
    return r


@pat(r'(core|std)::str::<impl str>::get|(core|std)::str::traits::<impl std::slice::SliceIndex<str> for .*>::get')
def _strget(I, st, a, ce, t):
    i, s = (a[0], a[1]) if 'SliceIndex' in t['sdef'] else (a[1], a[0])
    ok, r = sslice(I, st, deref(I, st, s), i)
    return Some(r) if ok else NONE


@pat(r'(core|std)::str::<impl str>::is_char_boundary')
def _strb(I, st, a, ce, t):
    u = sunits(deref(I, st, a[0])); k = cint(I, st, a[1])
    if u is None: raise Unsupported('unknown text')
    p = 0; pos = {0}
    for n, _ in u: p += n; pos.add(p)
    return k in pos


@pat(r'(core|std)::str::<impl str>::(chars|bytes|char_indices|as_bytes)|std::string::String::(into_bytes|as_bytes)')
def _chars(I, st, a, ce, t):
    u = sunits(deref(I, st, a[0]))
    if u is None: raise Unsupported('characters of unknown text')
    n = t['sdef'].split('::')[-1]
    if n == 'chars': return It('vals', tuple(scode(c) for _, c in u), 0)
    if n == 'char_indices':
        p = 0; o = []
        for k, c in u: o.append(Agg(None, 0, (p, scode(c)))); p += k
        return It('vals', tuple(o), 0)
    b = []
    for k, c in u: b.extend(c.encode() if type(c) is str else [scode(c)])
    if n == 'bytes': return It('vals', tuple(b), 0)
    return Vec(b) if n == 'into_bytes' else I.new(st, Vec(b), 'bytes')


@pat(r'(core|std)::char::methods::<impl char>::(to_digit|is_digit|is_ascii_hexdigit|is_ascii_digit|is_whitespace|is_ascii|len_utf8|to_ascii_uppercase|to_ascii_lowercase)|(core|std)::num::<impl u8>::(is_ascii_hexdigit|is_ascii_digit|is_ascii)')
def _chardigit(I, st, a, ce, t):
    n = t['sdef'].split('::')[-1]
    c = deref(I, st, a[0])
    dig, up, low = (b_and(ge(c, x), le(c, y)) for x, y in ((48, 57), (65, 90), (97, 122)))
    if n in ('to_digit', 'is_digit'):
        r = cint(I, st, a[1])
        if r > 36 or r < 2: panic(I, st, 'panic:radix')
        v = ite(dig, isub(c, 48), ite(up, isub(c, 55), ite(low, isub(c, 87), 99)))
        ok = lt(v, r)
        if n == 'is_digit': return ok
        return merge(ok, Some(v), NONE)
    if n == 'is_ascii_hexdigit': return b_or(dig, b_and(ge(c, 65), le(c, 70)), b_and(ge(c, 97), le(c, 102)))
    if n == 'is_ascii_digit': return dig
    if n == 'is_ascii': return lt(c, 128)
    if n == 'is_whitespace': return b_or(eq(c, 32), b_and(ge(c, 9), le(c, 13)))
    if n == 'to_ascii_uppercase': return ite(low, isub(c, 32), c)
    if n == 'to_ascii_lowercase': return ite(up, iadd(c, 32), c)
    raise Unsupported(n)


@pat(r'(core|std)::char::(methods::<impl char>::from_digit|from_digit|convert::from_digit)')
def _fromdigit(I, st, a, ce, t):
    d = whnf(I, st, a[0]); r = cint(I, st, a[1])
    return merge(lt(d, r), Some(ite(lt(d, 10), iadd(d, 48), iadd(d, 87))), NONE)


@pat(r'core::str::<impl str>::parse')
def _parse(I, st, a, ce, t):
    ty = I.p.types[ce['args'][0]] if ce.get('args') else {'k': '?'}
    if ty['k'] != 'int': raise Unsupported('parse')
    b = ty['bits']
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty['signed'] else (0, (1 << b) - 1)
    return _from_str_radix(I, st, [a[0], 10], lo, hi)


# ------------------------------------------------------------------ hashing (trace of writes)

def trace(I, st, h, vals):
    k = ('hashtrace', 0)
    st.mem[k] = Vec((st.mem.get(k) or Vec(())).f + tuple(vals))
    return UNIT


@pat(r'(core|std)::hash::impls::<impl std::hash::Hash for .*>::hash|(core|std)::(array|slice|vec|str)::.*<impl std::hash::Hash for .*>::hash|<std::mem::Discriminant<T> as std::hash::Hash>::hash|<std::vec::Vec<.*> as std::hash::Hash>::hash|<std::string::String as std::hash::Hash>::hash|std::hash::impls::.*::hash|std::array::<impl std::hash::Hash for .*>::hash')
def _hash(I, st, a, ce, t):
    d = deref(I, st, a[0])
    out = []
    def flat(x):
        x = whnf(I, st, x)
        if type(x) is Ref: x = deref(I, st, x)
        if is_scalar(x): out.append(x)
        elif type(x) is Vec:
            out.append(len(x.f))
            if x.f and is_scalar(x.f[0]):
                for y in x.f: flat(y)
            else:
                for y in x.f: hash_value(I, st, y, out)
        elif type(x) is Opq: out.append(x)
        elif type(x) is Str: out.append(x)
        elif type(x) is Agg and x.ty is None:
            for y in x.f: flat(y)
        else: hash_value(I, st, x, out)
    def hash_value(I, st, y, out):
        if is_scalar(y): out.append(y); return
        raise Unsupported('hash of %r' % (y,))
    flat(d)
    return trace(I, st, a[1], out)


@pat(r'std::hash::Hasher::write_\w+|<probe::TraceHasher as std::hash::Hasher>::write\w*')
def _hwrite(I, st, a, ce, t):
    v = whnf(I, st, a[1])
    if type(v) is Ref: v = deref(I, st, v)
    return trace(I, st, a[0], list(v.f) if type(v) is Vec else [v])


# ------------------------------------------------------------------ environment

@pat(r'std::time::Instant::now|std::time::SystemTime::now')
def _now(I, st, a, ce, t):
    I.events.append(('time',)); return Opq('instant')


@pat(r'std::time::Instant::elapsed')
def _el(I, st, a, ce, t): return Opq('duration')


@pat(r'std::time::Duration::as_(millis|micros|nanos|secs)\w*')
def _asm(I, st, a, ce, t): return uf('duration', 'i', (), 0, 1 << 62)


@pat(r'std::io::_print|std::io::_eprint')
def _print(I, st, a, ce, t):
    I.events.append(('print',)); return UNIT


@pat(r'<&?i64 as std::ops::(Add|Sub|Mul)<&?i64>>::(add|sub|mul)|<&?f64 as std::ops::(Add|Sub|Mul|Div)<&?f64>>::\w+')
def _arith(I, st, a, ce, t):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    n = t['sdef'].split('::')[-1]
    if sort_of(x) == 'f': return {'add': fadd, 'sub': fsub, 'mul': fmul, 'div': fdiv}[n](x, y)
    r = {'add': iadd, 'sub': isub, 'mul': imul}[n](x, y)
    require(I, st, b_and(ge(r, -(1 << 63)), le(r, (1 << 63) - 1)), 'assert:Overflow')
    return r


def rng_value(seed, n, lo, hi):
    """a stand-in for the seeded generator: a fixed function of seed, position and range"""
    return lo + TT.h64('rng', seed, n) % (hi - lo)


@pat(r'.*rand_core::SeedableRng>?::seed_from_u64|.*rand_core::SeedableRng>?::from_seed')
def _seed(I, st, a, ce, t):
    s = whnf(I, st, a[0])
    if type(s) is Vec: s = tuple(whnf(I, st, x) for x in s.f)
    if type(s) not in (int, tuple): raise Unsupported('seed')
    return Opq('rng', (s, 0))


@pat(r'.*rand::(rng::)?Rng>?::gen_range|.*rand::Rng>?::gen_range')
def _gen_range(I, st, a, ce, t):
    r = deref(I, st, a[0])
    g = whnf(I, st, a[1])
    if type(r) is not Opq or type(g) is not Agg: raise Unsupported('gen_range')
    if r.name == 'entropy':
        I.events.append(('entropy',))
        raise Unsupported('value of an unseeded generator')
    nm = I.p.types[g.ty]['name'] if g.ty is not None else ''
    lo, hi = cint(I, st, g.f[0]), cint(I, st, g.f[1])
    if nm.endswith('RangeInclusive'): hi += 1
    require(I, st, lo < hi, 'cannot sample empty range')
    I.store(st, a[0], Opq('rng', (r.a[0], r.a[1] + 1)))
    return rng_value(r.a[0], r.a[1], lo, hi)


@pat(r'rand::(rngs::)?(thread::)?(thread_rng|random)|.*SeedableRng>?::from_(entropy|os_rng|rng)|rand::rngs::thread::.*')
def _entropy(I, st, a, ce, t):
    I.events.append(('entropy',))
    return Opq('entropy')
