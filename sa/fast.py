"""Value graphs compiled to straight-line evaluators (plain floating point, no error bounds).

Only a filter: every disagreement it shows is re-examined by the error-tracking evaluator of terms.py."""
import math
from terms import *
import terms as TT
from terms import _pow, fdivc, frem, UNARY, STEP, tr_irem, tr_idiv, ufval, wrapint, TABLES

NAN_ = float('nan')


def _uf(name, sort, lo, hi, *vals):
    r = ufval(name, [(v, 0) for v in vals])
    if r[0] is None: return 0 if sort == 'i' else NAN_
    if sort == 'f':
        if lo > -INF and hi < INF: return lo + (hi - lo) * (0.5 + 0.5 * math.sin(r[0] * 1.9))
        return r[0] * 40
    if sort == 'i': return lo + int(round((0.5 + 0.5 * math.sin(r[0] * 1.9)) * (hi - lo)))
    return r[0] > 0


def _f2i(x, lo, hi):
    if x != x: return 0
    if x >= hi: return hi
    if x <= lo: return lo
    return math.trunc(x)


def _sel(arr, i): return arr[i] if 0 <= i < len(arr) else arr[0]
def _sh(x, k, left):
    if not 0 <= k < 128: return 0
    return x << k if left else x >> k


ENV = dict(_p=_pow, _d=fdivc, _r=frem, _uf=_uf, _f2i=_f2i, _sel=_sel, _sh=_sh, _I=INF, _N=NAN_, _at=math.atan2, _hy=math.hypot,
           _ir=lambda a, b: tr_irem(a, b) if b else 0, _id=lambda a, b: tr_idiv(a, b) if b else 0, _w=wrapint, _T=TABLES)
for k, f in UNARY.items(): ENV['_u_' + k] = f
for k, f in STEP.items(): ENV['_s_' + k] = f


def lit(x):
    if type(x) is float:
        if x != x: return '_N'
        if abs(x) == INF: return '_I' if x > 0 else '(-_I)'
        return '(%r)' % x if x < 0 else repr(x)
    return '(%r)' % (x,) if type(x) is int and x < 0 else repr(x)


def order(ts):
    out, seen = [], set()
    for t in ts:
        if type(t) is not T: continue
        st = [(t, False)]
        while st:
            u, done = st.pop()
            if done: out.append(u); continue
            if u.id in seen: continue
            seen.add(u.id)
            st.append((u, True))
            st.extend((y, False) for y in children(u) if y.id not in seen)
    return out


def expr(t):
    op, a = t.op, t.a
    n = lambda x: 'v%d' % x.id if type(x) is T else lit(x)
    if op == 'var': return 'V[%r]' % a[0]
    if op == 'lin':
        s = [lit(a[0])] if a[0] or not a[1] else []
        for x, c in a[1]: s.append(n(x) if c == 1 else '%s*%s' % (lit(c), n(x)))
        return '+'.join(s)
    if op == 'ite': return '%s if %s else %s' % (n(a[1]), n(a[0]), n(a[2]))
    if op == 'uf': return 'U[%d] if %d in U else _uf(%r,%r,%s,%s,%s)' % (t.id, t.id, a[0], t.sort, lit(t.lo), lit(t.hi), ','.join(n(x) for x in a[1:]))
    if op in ('mul', 'imul'): return '*'.join(n(x) for x in a)
    if op in ('div', 'xdiv'): return '_d(%s,%s)' % (n(a[0]), n(a[1]))
    if op == 'xadd': return '%s+%s' % (n(a[0]), n(a[1]))
    if op == 'xmul': return '%s*%s' % (n(a[0]), n(a[1]))
    if op == 'pow': return '_p(%s,%s)' % (n(a[0]), n(a[1]))
    if op in UNARY: return '_u_%s(%s)' % (op, n(a[0]))
    if op in STEP: return '_s_%s(%s)' % (op, n(a[0]))
    if op == 'atan2': return '_at(%s,%s)' % (n(a[0]), n(a[1]))
    if op == 'hypot': return '_hy(%s,%s)' % (n(a[0]), n(a[1]))
    if op == 'rem': return '_r(%s,%s)' % (n(a[0]), n(a[1]))
    if op == 'f2i': return '_f2i(%s,%s,%s)' % (n(a[0]), lit(a[1]), lit(a[2]))
    if op == 'i2f': return 'float(%s)' % n(a[0])
    if op == 'bits': return '(%s>>%d)&%d' % (n(a[0]), a[1], (1 << a[2]) - 1)
    if op in ('iand', 'ior', 'ixor'): return '%s%s%s' % (n(a[0]), {'iand': '&', 'ior': '|', 'ixor': '^'}[op], n(a[1]))
    if op in ('shl', 'shr'): return '_sh(%s,%s,%s)' % (n(a[0]), n(a[1]), op == 'shl')
    if op == 'idiv': return '_id(%s,%s)' % (n(a[0]), n(a[1]))
    if op == 'irem': return '_ir(%s,%s)' % (n(a[0]), n(a[1]))
    if op == 'wrap': return '_w(%s,%r,%r)' % (n(a[0]), a[1], a[2])
    if op in ('lt', 'gt', 'eq'): return '%s%s%s' % (n(a[0]), {'lt': '<', 'gt': '>', 'eq': '=='}[op], lit(a[1]))
    if op == 'not': return 'not %s' % n(a[0])
    if op in ('and', 'or'): return (' %s ' % op).join(n(x) for x in a)
    if op == 'sel': return '_sel(_T[%r],%s)' % (a[0], n(a[1]))
    raise NotImplementedError(op)


def compiled(ts):
    """f(values of variables, values of uninterpreted results by term id) -> tuple of values; None if not expressible"""
    try:
        L = ['def f(V,U):']
        for t in order(ts): L.append(' v%d=%s' % (t.id, expr(t)))
        L.append(' return (%s,)' % ','.join('v%d' % t.id if type(t) is T else lit(t) for t in ts))
        env = dict(ENV)
        exec(compile('\n'.join(L), '<graph>', 'exec'), env)
        return env['f']
    except (NotImplementedError, MemoryError, RecursionError, SyntaxError): return None


_one = {}
def value(t, V, U):
    """value of one term"""
    if type(t) is not T: return t
    f = _one.get(t.id)
    if f is None:
        if len(_one) > 4000: _one.clear()
        f = _one[t.id] = compiled([t]) or False
    if f is False: raise NotImplementedError
    return f(V, U)[0]
