"""Value-graph terms: hash-consed, gated (ite) expressions over f64 / i64 / bool.

Used as the abstract domain of the MIR interpreter and as the language in which the expected
behaviour is written.  Every term carries
  * an interval enclosure (lo, hi, nan),
  * a fingerprint: its values under a fixed set of random valuations of the inputs, with a running
    rounding-error bound (global value numbering by random interpretation, Gulwani & Necula).
Arithmetic is normalised over the reals: sums are linear forms, comparisons are (form REL const).
"""
import math, hashlib, random, struct

INF = math.inf
NAN = math.nan
NF = 12            # number of valuations
EPS = 4e-16

_tab = {}
_count = 0
_classes = {}


class T:
    __slots__ = ('op', 'a', 'sort', 'lo', 'hi', 'nan', 'id', '_fp', 'gated', 'key', '_vars', '_lf', 'sb', 'x')

    def __repr__(self):
        return show(self, 4)


_dist = {}
_ks = {}


def dist(name):
    """memoise a unary constructor that distributes over gates"""
    def deco(f):
        def g(x, *k):
            if type(x) is not T or x.op != 'ite': return f(x, *k)
            key = (name, x.id) + tuple(kid(y) for y in k)
            r = _dist.get(key)
            if r is None:
                r = f(x, *k)
                _dist[key] = r
            return r
        return g
    return deco


def reset():
    global _count
    _tab.clear(); _classes.clear(); _dist.clear(); _ks.clear(); _count = 0


def h64(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'little')


def is_t(x):
    return type(x) is T


def sort_of(x):
    t = type(x)
    if t is T: return x.sort
    if t is bool: return 'b'
    if t is int: return 'i'
    if t is float: return 'f'
    raise TypeError(repr(x))


def kid(x):
    """hash-consing key of an argument"""
    if type(x) is T: return x.id
    if type(x) is float:
        if x != x: return ('f', 'nan')
        return ('f', x if x != 0 else 0.0)
    return (type(x).__name__, x)


def iv(x):
    """interval of any scalar"""
    if type(x) is T: return x.lo, x.hi
    if type(x) is bool: return int(x), int(x)
    if type(x) is float and x != x: return -INF, INF
    return x, x


def maynan(x):
    if type(x) is T: return x.nan
    return type(x) is float and x != x


def _mk(op, args, sort, lo, hi, nan=False, key=None):
    global _count
    k = key if key is not None else (op,) + tuple(kid(x) if not isinstance(x, str) else x for x in args)
    t = _tab.get(k)
    if t is not None: return t
    t = T()
    t.op = op; t.a = args; t.sort = sort; t.nan = nan
    if sort == 'f':
        if lo != lo: lo = -INF
        if hi != hi: hi = INF
    t.lo = lo; t.hi = hi
    t._fp = None; t._vars = None; t._lf = None
    t.gated = op == 'ite' or any(type(x) is T and x.gated for x in args) or (op == 'lin' and any(x.gated for x, _ in args[1]))
    t.sb = t.gated or op in ('bits', 'wrap') or any(type(x) is T and x.sb for x in args) or (op == 'lin' and any(x.sb for x, _ in args[1]))
    t.x = op in ('xadd', 'xmul', 'xdiv') or any(type(x) is T and x.x for x in args) or (op == 'lin' and any(x.x for x, _ in args[1]))
    t.key = k
    _count += 1
    t.id = _count
    _tab[k] = t
    if sort in ('f', 'i') and op not in ('var', 'ite') and not t.gated and not t.x:
        r = _classify(t)
        if r is not t:
            # tighten the representative's enclosure with the new one (both enclose the same value)
            if t.lo > r.lo and t.lo <= r.hi: r.lo = t.lo
            if t.hi < r.hi and t.hi >= r.lo: r.hi = t.hi
            r.nan = r.nan and t.nan
            _tab[k] = r
            return r
    return t


def _classify(t):
    """global value numbering: return an existing term with the same fingerprint, if any"""
    fp = fingerprint(t)
    good = [(v, e) for v, e in fp if v is not None and v == v and abs(v) != INF]
    if len(good) < 4: return t
    # a coincidence of all values must be out of the question: enough distinct values, enough digits in them
    bits = 0.0
    w = math.log2(min(max(float(t.hi) - float(t.lo), 1.0), 1e15)) if t.hi < INF and t.lo > -INF else 15.0
    for v in {v for v, _ in good}: bits += 44.0 if type(v) is float and v != math.floor(v) else min(w, 30.0)
    if bits < 40: return t
    # key: the first valuation's value in coarse log-bucket; try neighbours
    v0 = None
    for i, (v, e) in enumerate(fp):
        if v is not None and v == v and abs(v) != INF:
            v0 = (i, v); break
    if v0[1] == 0: base = 0
    else: base = math.log(abs(v0[1])) * 1e5
    b = math.floor(base)
    out = None
    for d in (0, -1, 1):
        for c in _classes.get((t.sort, v0[0], b + d), ()):
            if fp_equal(fp, c._fp):
                out = c; break
        if out is not None: break
    if out is not None: return out
    _classes.setdefault((t.sort, v0[0], b), []).append(t)
    return t


def fp_equal(f, g, minvalid=3):
    ok = 0
    for (v, e), (w, d) in zip(f, g):
        if v is None or w is None: continue
        if v != v or w != w:
            if (v != v) != (w != w): return False
            continue
        if v == w:
            ok += 1; continue
        if abs(v) == INF or abs(w) == INF: return False
        if e == INF or d == INF or e != e or d != d: continue
        if abs(v - w) > 64 * (e + d) + 1e-12 * max(abs(v), abs(w)) : return False
        if e > 0.1 * max(abs(v), 1e-9) or d > 0.1 * max(abs(w), 1e-9): continue
        ok += 1
    return ok >= minvalid


# ---------------------------------------------------------------- variables

SPECIALS = {}


def var(name, sort, lo, hi, nan=False, specials=()):
    k = ('var', name)
    if k in _tab:
        t = _tab[k]
        assert t.lo == lo and t.hi == hi, name
        return t
    t = _mk('var', (name,), sort, lo, hi, nan, key=k)
    rng = random.Random(h64('val', name))
    vals = []
    sp = [x for x in specials if lo <= x <= hi]
    if sp: SPECIALS[t.id] = sorted(sp)
    rng.shuffle(sp)
    for i in range(NF):
        if sort == 'b':
            vals.append((rng.random() < 0.5, 0)); continue
        if sort == 'i':
            if i >= NF - 4 and sp: vals.append((sp[i % len(sp)], 0)); continue
            if i == NF - 1: vals.append((lo, 0)); continue
            if i == NF - 2: vals.append((hi, 0)); continue
            vals.append((rng.randint(lo, hi), 0)); continue
        L, H = max(lo, -1e9), min(hi, 1e9)
        if i >= NF - 5:
            if sp and i % 2: v = float(sp[i % len(sp)])
            else:
                c = rng.choice(['int', 'half', 'int', 'ends'])
                v = rng.uniform(max(L, -500), min(H, 500)) if max(L, -500) <= min(H, 500) else rng.uniform(L, H)
                if c == 'int': v = float(round(v))
                elif c == 'half': v = math.floor(v) + 0.5
                else: v = rng.choice([L, H])
                v = min(max(v, L), H)
        else:
            if H - L > 2000 and i % 2:
                v = rng.uniform(max(L, -500.), min(H, 500.)) if max(L, -500.) <= min(H, 500.) else rng.uniform(L, H)
            else: v = rng.uniform(L, H)
        vals.append((v, 0.0))
    t._fp = vals
    return t


def fvar(name, lo=-1e6, hi=1e6, **kw): return var(name, 'f', float(lo), float(hi), **kw)
def ivar(name, lo, hi, **kw): return var(name, 'i', lo, hi, **kw)
def bvar(name): return var(name, 'b', 0, 1)


# ---------------------------------------------------------------- fingerprints

def fingerprint(x):
    if type(x) is not T:
        if type(x) is float: return [(x, abs(x) * EPS)] * NF
        return [(x, 0)] * NF
    if x._fp is not None: return x._fp
    # iterative post-order
    stack = [x]
    while stack:
        t = stack[-1]
        if t._fp is not None: stack.pop(); continue
        todo = [y for y in children(t) if y._fp is None]
        if todo:
            stack.extend(todo); continue
        t._fp = [eval_op(t, _getter(i)) for i in range(NF)]
        stack.pop()
    return x._fp


def children(t):
    if t.op == 'lin': return [x for x, _ in t.a[1]]
    return [y for y in t.a if type(y) is T]


def _getter(i):
    def g(x):
        if type(x) is T: return x._fp[i]
        if type(x) is float: return (x, cerr(x))
        return (x, 0)
    return g


def evaluate(x, valuation, memo=None):
    """value of a term under a valuation {var name: value}; returns (v, err)"""
    if type(x) is not T: return (x, 0)
    memo = {} if memo is None else memo
    stack = [x]
    while stack:
        t = stack[-1]
        if t.id in memo: stack.pop(); continue
        if t.op == 'var':
            memo[t.id] = (valuation[t.a[0]], 0); stack.pop(); continue
        if t.op == 'ite':  # lazily: only the selected arm
            c = t.a[0]
            if c.id not in memo: stack.append(c); continue
            cv = memo[c.id][0]
            if cv is None:      # too close to tell: the value, if both arms have the same
                todo = [y for y in t.a[1:] if type(y) is T and y.id not in memo]
                if todo: stack.extend(todo); continue
                (p, d), (q, e) = (memo[y.id] if type(y) is T else (y, 0) for y in t.a[1:])
                if p is None or q is None: r = (None, INF)
                elif type(p) is float and type(q) is float: r = (p, max(d, e, abs(p - q))) if abs(p - q) <= 8 * (d + e) or p == q else (None, INF)
                else: r = (p, 0) if p == q else (None, INF)
                memo[t.id] = r; stack.pop(); continue
            arm = t.a[1] if cv else t.a[2]
            if type(arm) is T:
                if arm.id not in memo: stack.append(arm); continue
                memo[t.id] = memo[arm.id]
            else: memo[t.id] = (arm, 0)
            stack.pop(); continue
        todo = [y for y in children(t) if y.id not in memo]
        if todo: stack.extend(todo); continue
        def g(y):
            if type(y) is T: return memo[y.id]
            return (y, cerr(y) if type(y) is float else 0)
        memo[t.id] = eval_op(t, g)
        stack.pop()
    return memo[x.id]


def _pow(a, b):
    try:
        r = math.pow(a, b)
        return r
    except OverflowError: return INF
    except (ValueError, ZeroDivisionError):
        if a == 0 and b < 0: return INF
        return NAN


def fround(x):
    if x != x or abs(x) == INF or abs(x) > 4e15: return x
    f = math.floor(abs(x))
    d = abs(x) - f
    r = f + 1.0 if d >= 0.5 else float(f)
    return math.copysign(r, x)


def fdivc(a, b):
    try: return a / b
    except ZeroDivisionError:
        if a == 0 or a != a: return NAN
        return math.copysign(INF, a) * math.copysign(1.0, b)


def frem(a, b):
    try: return math.fmod(a, b)
    except ValueError: return NAN


def _safe(f):
    def g(x):
        try: return f(x)
        except OverflowError: return INF
        except ValueError: return NAN
    return g


def _cbrt(x):
    return math.copysign(abs(x) ** (1 / 3), x) if x == x else x


UNARY = {
    'sqrt': _safe(lambda x: math.sqrt(x)), 'exp': _safe(math.exp), 'ln': lambda x: (-INF if x == 0 else (NAN if x < 0 or x != x else math.log(x))),
    'sin': _safe(math.sin), 'cos': _safe(math.cos), 'tan': _safe(math.tan), 'cbrt': _cbrt, 'atan': _safe(math.atan),
    'log10': lambda x: (-INF if x == 0 else (NAN if x < 0 or x != x else math.log10(x))),
    'expm1': _safe(math.expm1), 'ln_1p': _safe(lambda x: math.log1p(x)), 'asin': _safe(math.asin), 'acos': _safe(math.acos),
}
STEP = {'floor': lambda x: x if abs(x) == INF or x != x else float(math.floor(x)), 'ceil': lambda x: x if abs(x) == INF or x != x else float(math.ceil(x)),
        'trunc': lambda x: x if abs(x) == INF or x != x else float(math.trunc(x)), 'round': fround}


def tr_irem(a, b):
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def tr_idiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def ufval(name, vals):
    """smooth pseudo-random function used for uninterpreted symbols"""
    s = 0.0
    e = 0.0
    h = random.Random(h64('uf', name, len(vals)))
    tot = h.uniform(-1, 1)
    prod = 1.0
    for (v, err) in vals:
        if v is None: return (None, INF)
        k = h.uniform(0.3, 1.7); p = h.uniform(0, 6.28); w = h.uniform(0.5, 2)
        if type(v) is bool: v = 3.1 if v else -1.7
        if v != v: v = 1.2345
        if abs(v) == INF: v = math.copysign(77.7, v)
        # two scales so that both small and large arguments matter
        x = float(v)
        y = k * math.asinh(x) * 3 + p
        tot += w * math.sin(y) * prod
        prod = 0.5 + 0.5 * math.cos(y * 1.37 + 0.2)
        e += 8 * err / (1 + abs(x))
    return (tot, e + 1e-15)


def short(v):
    """at most 26 significant bits: products of two such numbers are exact"""
    if v == 0.0: return True
    if v != v or abs(v) == INF: return False
    m = math.frexp(v)[0] * 67108864.0
    return m == math.floor(m)


def cerr(v): return 0.0 if short(v) else abs(v) * EPS


def exact_lin(s, ps):
    """the sum, when no operation rounds"""
    if not short(s): return None
    for c, v in ps:
        if not short(c) or not short(v): return None
        p = c * v
        t = s + p
        if t - s != p or t - p != s: return None
        s = t
    return s if short(s) else None


def eval_op(t, g):
    op = t.op
    a = t.a
    if op == 'lin':
        s = a[0]; e = 0.0
        if t.sort == 'f':
            vs = [g(x) for x, _ in a[1]]
            if all(er == 0 and v is not None for v, er in vs):
                r = exact_lin(s, [(c, v) for (_, c), (v, _) in zip(a[1], vs)])
                if r is not None: return (r, 0.0)
            e = abs(s) * EPS
        for x, c in a[1]:
            v, er = g(x)
            if v is None: return (None, INF)
            s += c * v
            if t.sort == 'f':
                e += abs(c) * er + abs(c * v) * EPS if abs(v) != INF else 0
        if t.sort == 'f': e += abs(s) * EPS if abs(s) != INF else 0
        return (s, e)
    if op == 'ite':
        c = g(a[0])[0]
        if c is None: return (None, INF)
        return g(a[1]) if c else g(a[2])
    if op == 'uf':
        r = ufval(a[0], [g(x) for x in a[1:]])
        if r[0] is None: return r
        if t.sort == 'f':
            if t.lo > -INF and t.hi < INF:
                w = t.hi - t.lo
                u = 0.5 + 0.5 * math.sin(r[0] * 1.9)
                return (t.lo + w * u, w * r[1] + 1e-15 * w)
            return (r[0] * 40, r[1] * 40)
        if t.sort == 'i':
            u = 0.5 + 0.5 * math.sin(r[0] * 1.9)
            if (t.hi - t.lo) * r[1] > 0.3: return (None, INF)
            x = u * (t.hi - t.lo)
            if abs(x - round(x)) > 0.5 - (t.hi - t.lo) * r[1] * 2: return (None, INF)
            return (t.lo + int(round(x)), 0)
        return (r[0] > 0, 0) if abs(r[0]) > 4 * r[1] else (None, INF)
    vs = [g(x) for x in a if not isinstance(x, str)]
    for v, e in vs:
        if v is None: 
            if op in ('and', 'or'): continue
            return (None, INF)
    if op == 'mul':
        v, e = 1.0, 0.0
        if all(d == 0 and short(x) for x, d in vs):
            for x, d in vs:
                v *= x
                if not short(v): break
            else: return (v, 0.0)
            v = 1.0
        for x, d in vs:
            if abs(x) == INF or abs(v) == INF or x != x: e = 0.0 if v * x == v * x else 0.0
            else: e = abs(v) * d + abs(x) * e + abs(v * x) * EPS
            v = v * x
        return (v, e)
    if op == 'imul':
        v = 1
        for x, d in vs: v *= x
        return (v, 0)
    if op == 'div':
        (x, d), (y, f) = vs
        v = fdivc(x, y)
        if v != v or abs(v) == INF or abs(y) == INF: return (v, 0.0)
        if d == 0 and f == 0 and short(x) and short(y) and short(v) and v * y == x: return (v, 0.0)
        return (v, (d + abs(v) * f) / abs(y) + abs(v) * EPS)
    if op == 'pow':
        (x, d), (y, f) = vs
        v = _pow(x, y)
        if v != v or abs(v) == INF: return (v, 0.0)
        e = abs(v) * 4 * EPS
        if d: e += abs(_pow(abs(x) + d, y) - _pow(abs(x), y)) if x else abs(_pow(d, y))
        if f and x > 0: e += abs(v * math.log(x) * f)
        return (v, e if e == e else INF)
    if op in UNARY:
        (x, d), = vs
        fn = UNARY[op]
        v = fn(x)
        if v != v or abs(v) == INF: return (v, 0.0)
        e = abs(v) * 4 * EPS + 1e-18
        if d:
            for y in (fn(x + d), fn(x - d)):
                if y == y and abs(y) != INF: e = max(e, abs(y - v) + abs(v) * 4 * EPS)
        return (v, e)
    if op == 'atan2':
        (x, d), (y, f) = vs
        v = math.atan2(x, y)
        r2 = x * x + y * y
        return (v, 4 * EPS * abs(v) + ((abs(y) * d + abs(x) * f) / r2 if r2 else (d + f) * 1e300))
    if op in ('xadd', 'xmul', 'xdiv'):
        (x, d), (y, f) = vs
        if type(a[0]) is not T: d = 0.0
        if type(a[1]) is not T: f = 0.0
        v = x + y if op == 'xadd' else x * y if op == 'xmul' else fdivc(x, y)
        if v != v or abs(v) == INF: return (v, 0.0)
        return (v, d + f if op == 'xadd' else abs(x) * f + abs(y) * d if op == 'xmul' else (d + abs(v) * f) / abs(y))
    if op == 'hypot':
        (x, d), (y, f) = vs
        v = math.hypot(x, y)
        return (v, d + f + EPS * v)
    if op in STEP:
        (x, d), = vs
        v = STEP[op](x)
        if v != v or abs(v) == INF: return (v, 0.0)
        if d and STEP[op](x + 8 * d) != STEP[op](x - 8 * d): return (None, INF)
        return (v, 0.0)
    if op == 'rem':
        (x, d), (y, f) = vs
        v = frem(x, y)
        if v != v or not d and not f: return (v, 0.0)
        if (d or f) and y == y and abs(y) != INF:
            m = abs(v) / abs(y) if y else 0
            if (m < 1e-9 or m > 1 - 1e-9) and abs(x) > 1e-300 and d > 0 and x != 0 and abs(x) >= abs(y) * (1 - 1e-9):
                return (None, INF)
        return (v, d + EPS * abs(x))
    if op == 'f2i':
        (x, d) = vs[0]
        lo, hi = t.a[1], t.a[2]
        if x != x: return (0, 0)
        if x >= hi: return (hi, 0)
        if x <= lo: return (lo, 0)
        if d and math.trunc(x + 8 * d) != math.trunc(x - 8 * d): return (None, INF)
        return (math.trunc(x), 0)
    if op == 'i2f':
        return (float(vs[0][0]), 0.0)
    if op == 'bits':
        x = vs[0][0]
        return ((x >> a[1]) & ((1 << a[2]) - 1), 0)
    if op == 'iand': return (vs[0][0] & vs[1][0], 0)
    if op == 'ior': return (vs[0][0] | vs[1][0], 0)
    if op == 'ixor': return (vs[0][0] ^ vs[1][0], 0)
    if op == 'shl': return (vs[0][0] << vs[1][0] if 0 <= vs[1][0] < 128 else None, 0)
    if op == 'shr': return (vs[0][0] >> vs[1][0] if 0 <= vs[1][0] < 128 else None, 0)
    if op == 'idiv': return (tr_idiv(vs[0][0], vs[1][0]), 0) if vs[1][0] else (None, INF)
    if op == 'irem': return (tr_irem(vs[0][0], vs[1][0]), 0) if vs[1][0] else (None, INF)
    if op == 'wrap':
        bits, signed = a[1], a[2]
        return (wrapint(vs[0][0], bits, signed), 0)
    if op in ('lt', 'gt', 'eq'):
        x, d = vs[0]
        k = a[1]
        if x != x: return (False, 0)
        if t_isint(a[0]):
            return ({'lt': x < k, 'gt': x > k, 'eq': x == k}[op], 0)
        if d and abs(x - k) <= 8 * d + 4 * EPS * abs(k): 
            y = settle(a[0], g)
            if type(y) in (int, float): return ({'lt': y < k, 'gt': y > k, 'eq': y == k}[op], 0)
            return (None, INF)
        return ({'lt': x < k, 'gt': x > k, 'eq': x == k}[op], 0)
    if op == 'not':
        return (not vs[0][0], 0)
    if op == 'and':
        r = [v for v, _ in vs]
        if any(v is False for v in r): return (False, 0)
        return consensus(t, g) if any(v is None for v in r) else (True, 0)
    if op == 'or':
        r = [v for v, _ in vs]
        if any(v is True for v in r): return (True, 0)
        return consensus(t, g) if any(v is None for v in r) else (False, 0)
    if op == 'sel':
        tab = a[0]
        i = vs[0][0]
        arr = TABLES[tab]
        if not (0 <= i < len(arr)): return (None, INF)
        v = arr[i]
        return (v, cerr(v) if type(v) is float else 0)
    raise NotImplementedError(op)


def settle(f, g):
    """a linear form with the gates among its parts replaced by their selected arms (a constant if the parts cancel)"""
    if type(f) is not T or f.op != 'lin' or f.sort != 'f' or not any(p.op == 'ite' for p, _ in f.a[1]): return f
    r = f.a[0]
    for p, c in f.a[1]:
        for _ in range(40):
            if type(p) is not T or p.op != 'ite': break
            try: v = g(p.a[0])[0]
            except KeyError: return f
            if v is None: return f
            p = p.a[1] if v else p.a[2]
        if type(p) is T and p.op == 'lin': p = settle(p, g)
        r = fadd(r, fmul(c, p))
    return r


def consensus(t, g):
    """value of a boolean combination some of whose atoms are too close to tell: the one it has either way, if any"""
    free = []
    def leaves(u):
        if type(u) is not T: return
        if u.op in ('and', 'or', 'not'):
            for y in u.a: leaves(y)
        elif g(u)[0] is None and u not in free: free.append(u)
    leaves(t)
    if not free or len(free) > 4: return (None, INF)
    res = None
    for m in range(1 << len(free)):
        asg = {u.id: bool(m >> i & 1) for i, u in enumerate(free)}
        def ev(u):
            if type(u) is not T: return bool(u)
            if u.op == 'not': return not ev(u.a[0])
            if u.op == 'and': return all(ev(y) for y in u.a)
            if u.op == 'or': return any(ev(y) for y in u.a)
            return asg[u.id] if u.id in asg else bool(g(u)[0])
        r = ev(t)
        if res is None: res = r
        elif r != res: return (None, INF)
    return (res, 0)


def t_isint(x): return sort_of(x) == 'i'


TABLES = {}


def wrapint(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1): v -= 1 << bits
    return v


# ---------------------------------------------------------------- linear forms

def linform(x):
    """(const, {term: coef}) of a numeric scalar"""
    if type(x) is T:
        if x.op == 'lin': return x.a[0], x.a[1]
        return (0 if x.sort == 'i' else 0.0), ((x, 1 if x.sort == 'i' else 1.0),)
    return x, ()


def mk_lin(sort, const, pairs):
    """pairs: dict term -> coef"""
    ps = [(t, c) for t, c in pairs.items() if c != 0]
    if not ps: return const
    if sort == 'i' and len(ps) > 1 and sum(t.op == 'bits' for t, _ in ps) > 1:
        n = join_bits(ps)
        if n is not None: return mk_lin(sort, const, n) if not isinstance(n, tuple) else mk_lin(sort, const + n[1], n[0])
    if len(ps) == 1 and ps[0][1] == 1 and const == 0: return ps[0][0]
    ps.sort(key=lambda p: p[0].id)
    lo = hi = const
    nan = False
    for t, c in ps:
        l, h = t.lo, t.hi
        nan = nan or t.nan
        if c >= 0: l, h = c * l, c * h
        else: l, h = c * h, c * l
        if sort == 'f':
            if (lo == INF and l == -INF) or (lo == -INF and l == INF): nan = True
            lo = lo + l if lo + l == lo + l else -INF
            hi = hi + h if hi + h == hi + h else INF
        else:
            lo += l; hi += h
    if sort == 'f':
        if l == -INF or h == INF: pass
        lo = math.nextafter(lo, -INF); hi = math.nextafter(hi, INF)
        # exact integer-valued results keep exact bounds
        if all(c == int(c) if abs(c) < 1e15 else False for _, c in ps) and const == math.floor(const) and all(isintval(t) for t, _ in ps) and abs(lo) < 1e15 and abs(hi) < 1e15:
            lo = float(round(lo)); hi = float(round(hi))
    args = (const, tuple(ps))
    key = ('lin', sort, const, tuple((t.id, c) for t, c in ps))
    return _mk('lin', args, sort, lo, hi, nan, key=key)


def join_bits(ps):
    """c*bits(x,o,w) + c*2^w*bits(x,o+w,v)  ->  c*bits(x,o,w+v)"""
    by = {}
    for t, c in ps:
        if t.op == 'bits': by[(t.a[0].id, t.a[1])] = (t, c)
    for t, c in ps:
        if t.op != 'bits': continue
        x, o, w = t.a
        u = by.get((x.id, o + w))
        if u is not None and u[1] == c << w:
            d = dict(ps); del d[t]; del d[u[0]]
            m = mkbits(x, o, w + u[0].a[2])
            k, q = linform(m)
            for y, cc in q: d[y] = d.get(y, 0) + c * cc
            return (d, k * c)
    return None


def isintval(t):
    return type(t) is T and (t.op in STEP or t.op == 'i2f')


def lin_add(x, y, sy=1):
    sort = sort_of(x)
    c1, p1 = linform(x)
    c2, p2 = linform(y)
    d = {}
    for t, c in p1: d[t] = c
    for t, c in p2:
        if t in d:
            n = d[t] + sy * c
            # cancel residues produced by rounding
            if sort == 'f' and abs(n) <= 8 * EPS * abs(c): n = 0.0
            d[t] = n
        else: d[t] = sy * c
    return mk_lin(sort, c1 + sy * c2, d)


T.__hash__ = lambda self: self.id
T.__eq__ = lambda self, o: self is o


def lin_scale(x, k):
    c, p = linform(x)
    return mk_lin(sort_of(x), c * k, {t: cc * k for t, cc in p})


# ---------------------------------------------------------------- float ops

def lift_ite(x): return type(x) is T and x.op == 'ite'


def fadd(x, y):
    if type(x) is not T and type(y) is not T: return x + y
    return lin_add(x, y)


def fsub(x, y):
    if type(x) is not T and type(y) is not T: return x - y
    return lin_add(x, y, -1)


def fneg(x):
    if type(x) is not T: return -x
    return lin_scale(x, -1.0)


def _imul(a, b):
    ps = []
    for p in a:
        for q in b:
            if p == 0 or q == 0: ps.append(0.0)
            else: ps.append(p * q)
    return min(ps), max(ps)


def fmul(x, y):
    if type(x) is not T and type(y) is not T: return x * y
    if type(x) is not T: x, y = y, x
    if type(y) is not T:
        if y == 0: return 0.0
        if y != y or abs(y) == INF: return _mk('mul', (x, y), 'f', -INF, INF, True)
        return lin_scale(x, y)
    # pull scalar factors out
    k = 1.0
    fs = []
    for z in (x, y):
        if z.op == 'lin' and z.a[0] == 0 and len(z.a[1]) == 1:
            k *= z.a[1][0][1]; z = z.a[1][0][0]
        if z.op == 'mul': fs.extend(z.a)
        else: fs.append(z)
    fs.sort(key=lambda t: t.id)
    if x is y:
        lo, hi = iv(x)
        m = max(abs(lo), abs(hi))
        n = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        l, h = n * n, m * m if m != INF else INF
        if k != 1.0:
            l, h = 0.0, INF
    else:
        l, h = _imul(iv(x), iv(y))
        if k != 1.0:  # interval of unscaled product
            l, h = _imul((l, h), (1 / k, 1 / k))
    if l != l: l = -INF
    if h != h: h = INF
    l2 = math.nextafter(l, -INF) if l != 0 else 0.0
    h2 = math.nextafter(h, INF) if h != 0 else 0.0
    nan = x.nan or y.nan or ((abs(x.lo) == INF or abs(x.hi) == INF) and y.lo <= 0 <= y.hi) or ((abs(y.lo) == INF or abs(y.hi) == INF) and x.lo <= 0 <= x.hi)
    t = _mk('mul', tuple(fs), 'f', l2, h2, nan)
    return t if k == 1.0 else lin_scale(t, k)


def fdiv(x, y):
    if type(x) is not T and type(y) is not T: return fdivc(x, y)
    if type(y) is not T:
        if y == 0 or y != y or abs(y) == INF: return _mk('div', (x, y), 'f', -INF, INF, True)
        r = lin_scale(x, 1.0 / y)
        return r
    if x is y: return 1.0
    k = 1.0
    if y.op == 'lin' and y.a[0] == 0 and len(y.a[1]) == 1:
        k = 1.0 / y.a[1][0][1]; y = y.a[1][0][0]
    if type(x) is T and x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1:
        k *= x.a[1][0][1]; x = x.a[1][0][0]
    elif type(x) is not T and x not in (0.0,):
        k *= x; x = 1.0
    if x is y: return k
    if type(x) is not T and x == 0.0: return 0.0
    def unit(t): return (t.lo > 0 and t.hi < INF or t.hi < 0 and t.lo > -INF) and not t.nan
    if type(x) is T:
        if y.op == 'div' and y.a[0] is x and unit(x): return fmul(k, y.a[1])
        if x.op == 'div' and x.a[0] is y and unit(y): return fdiv(k, x.a[1])
        if y.op == 'mul' and unit(x) and any(f is x for f in y.a):
            l = list(y.a)
            l.remove(x)
            r = 1.0
            for f in l: r = fmul(r, f)
            return fdiv(k, r)
        if x.op == 'mul' and unit(y) and any(f is y for f in x.a):
            l = list(x.a)
            l.remove(y)
            r = k
            for f in l: r = fmul(r, f)
            return r
    nan = maynan(x) or y.nan
    xl, xh = iv(x)
    if y.lo > 0 or y.hi < 0:
        cands = []
        for p in (xl, xh):
            for q in (y.lo, y.hi):
                if abs(q) == INF:
                    cands.append(0.0)
                    if abs(p) == INF: cands += [INF, -INF]; nan = True
                else: cands.append(p / q if q != 0 else math.copysign(INF, p))
        lo, hi = math.nextafter(min(cands), -INF), math.nextafter(max(cands), INF)
        if min(cands) == 0: lo = 0.0
    else:
        lo, hi = -INF, INF
        if xl <= 0 <= xh: nan = True
        if y.lo >= 0 and xl >= 0:
            lo = 0.0
    t = _mk('div', (x, y), 'f', lo, hi, nan)
    return t if k == 1.0 else lin_scale(t, k)


def _mono(op, x, f):
    if type(x) is not T: return f(x)
    lo, hi = iv(x)
    l, h = f(lo), f(hi)
    nan = x.nan or l != l or h != h
    if l != l: l = -INF
    if h != h: h = INF
    return l, h, nan


def funary(op, x):
    fn = UNARY[op]
    if type(x) is not T: return fn(x)
    lo, hi, nan = x.lo, x.hi, x.nan
    if op in ('sin', 'cos'):
        return _mk(op, (x,), 'f', -1.0, 1.0, nan or abs(lo) == INF or abs(hi) == INF)
    if op in ('tan', 'asin', 'acos'):
        return _mk(op, (x,), 'f', -INF if op == 'tan' else -4.0, INF if op == 'tan' else 4.0, nan or op != 'tan')
    if op == 'sqrt':
        if lo < 0: nan = True; lo = 0.0
        if hi < 0: return _mk(op, (x,), 'f', 0.0, 0.0, True)
        l, h = math.sqrt(lo), math.sqrt(hi) if hi != INF else INF
        return _mk(op, (x,), 'f', math.nextafter(l, -INF) if l > 0 else 0.0, math.nextafter(h, INF), nan)
    if op in ('ln', 'log10'):
        if lo < 0: nan = True; lo = 0.0
        if hi <= 0: return _mk(op, (x,), 'f', -INF, INF, True)
        l, h = fn(lo), fn(hi)
        return _mk(op, (x,), 'f', l - abs(l) * 1e-15, h + abs(h) * 1e-15, nan)
    l, h = fn(lo), fn(hi)
    if l != l or h != h: l, h = -INF, INF
    m = 1e-15
    l2 = l - abs(l) * m
    h2 = h + abs(h) * m
    if op == 'exp': l2 = max(l2, 0.0)
    return _mk(op, (x,), 'f', l2, h2, nan)


def fstep(op, x):
    fn = STEP[op]
    if type(x) is not T: return fn(x)
    if isintval(x): return x
    return _mk(op, (x,), 'f', fn(x.lo), fn(x.hi), x.nan)


def fpow(x, y):
    if type(x) is not T and type(y) is not T: return _pow(x, y)
    if type(y) is not T:
        if y == 1.0: return x
        if y == 2.0: return fmul(x, x)
        if y == 0.5 and False: return funary('sqrt', x)
    xl, xh = iv(x); yl, yh = iv(y)
    nan = maynan(x) or maynan(y)
    if type(y) is not T and y == int(y):
        c = [_pow(xl, y), _pow(xh, y)]
        if xl < 0 < xh:
            if y % 2 == 0: c.append(0.0 if y > 0 else INF)
            elif y < 0: c += [-INF, INF]
        lo, hi = min(c), max(c)
    else:
        if xl < 0: nan = True; xl = 0.0
        if xh < 0: return _mk('pow', (x, y), 'f', 0.0, INF, True)
        c = [_pow(p, q) for p in (xl, xh) for q in (yl, yh)]
        if any(v != v for v in c): nan = True; lo, hi = 0.0, INF
        else:
            lo, hi = min(c), max(c)
            if xl < 1 < xh: lo = min(lo, 1.0); hi = max(hi, 1.0)
    lo2 = lo - abs(lo) * 1e-15 if lo != INF else lo
    hi2 = hi + abs(hi) * 1e-15 if hi != INF else hi
    if lo == 0: lo2 = 0.0
    return _mk('pow', (x, y), 'f', lo2, hi2, nan)


def frem_(x, y):
    if type(x) is not T and type(y) is not T: return frem(x, y)
    yl, yh = iv(y)
    xl, xh = iv(x)
    m = max(abs(yl), abs(yh))
    nan = maynan(x) or maynan(y) or (yl <= 0 <= yh) or abs(xl) == INF or abs(xh) == INF
    if type(y) is not T and y != 0 and xl > -abs(y) and xh < abs(y): return x
    lo = 0.0 if xl >= 0 else max(-m, xl)
    hi = 0.0 if xh <= 0 else min(m, xh)
    if hi == m and m > 0 and m != INF: hi = math.nextafter(m, 0)
    if lo == -m and m > 0 and m != INF: lo = math.nextafter(-m, 0)
    return _mk('rem', (x, y), 'f', lo, hi, nan)


def fatan2(y, x):
    if type(x) is not T and type(y) is not T: return math.atan2(y, x)
    return _mk('atan2', (y, x), 'f', -math.pi, math.pi, maynan(x) or maynan(y))


def ieee(op, x, y):
    """double-precision arithmetic, rounded to nearest (unlike fadd etc., which compute over the reals)"""
    if type(x) is not T and type(y) is not T: return {'xadd': fadd, 'xmul': fmul, 'xdiv': fdiv}[op](x, y)
    lo, hi = ieee_iv(op, iv(x), iv(y))
    return _mk(op, (x, y), 'f', lo, hi, maynan(x) or maynan(y) or lo == -INF and hi == INF)


def ieee_iv(op, x, y):
    if op == 'xdiv' and y[0] <= 0 <= y[1]: return -INF, INF
    f = {'xadd': lambda a, b: a + b, 'xmul': lambda a, b: a * b, 'xdiv': lambda a, b: a / b}[op]
    v = [f(a, b) for a in x for b in y]
    if any(a != a for a in v): return -INF, INF
    return min(v), max(v)


def fhypot(x, y):
    if type(x) is not T and type(y) is not T: return math.hypot(x, y)
    if kid(x) > kid(y) if type(kid(x)) is type(kid(y)) else False: x, y = y, x
    return _mk('hypot', (x, y), 'f', 0.0, INF, maynan(x) or maynan(y))


@dist('f2i')
def f2i(x, lo, hi):
    """saturating float -> int cast"""
    if type(x) is not T:
        if x != x: return 0
        if x >= hi: return hi
        if x <= lo: return lo
        return math.trunc(x)
    if x.op == 'ite': return ite(x.a[0], f2i(x.a[1], lo, hi), f2i(x.a[2], lo, hi))
    if x.op == 'i2f' and lo <= x.a[0].lo and x.a[0].hi <= hi: return x.a[0]
    l = lo if x.lo <= lo else (math.trunc(x.lo) if x.lo < hi else hi)
    h = hi if x.hi >= hi else (math.trunc(x.hi) if x.hi > lo else lo)
    if x.nan: l = min(l, 0); h = max(h, 0)
    return _mk('f2i', (x, lo, hi), 'i', l, h)


@dist('i2f')
def i2f(x):
    if type(x) is bool: return 1.0 if x else 0.0
    if type(x) is not T: return float(x)
    if x.op == 'ite': return ite(x.a[0], i2f(x.a[1]), i2f(x.a[2]))
    if x.op == 'f2i':
        y = x.a[0]
        if isintval(y) and not y.nan and x.a[1] <= y.lo and y.hi <= x.a[2]: return y
    if x.op == 'lin' and max(abs(x.lo), abs(x.hi)) < 2 ** 53 and all(max(abs(t.lo), abs(t.hi)) < 2 ** 53 for t, _ in x.a[1]):
        d = {}
        c0 = float(x.a[0])
        r = c0
        for t, c in x.a[1]: r = fadd(r, fmul(float(c), i2f(t)))
        return r
    return _mk('i2f', (x,), 'f', float(x.lo), float(x.hi))


# ---------------------------------------------------------------- int ops (mathematical integers)

def iadd(x, y):
    if type(x) is not T and type(y) is not T: return x + y
    return lin_add(x, y)


def isub(x, y):
    if type(x) is not T and type(y) is not T: return x - y
    return lin_add(x, y, -1)


def imul(x, y):
    if type(x) is not T and type(y) is not T: return x * y
    if type(x) is not T: x, y = y, x
    if type(y) is not T:
        return lin_scale(x, y) if y else 0
    cs = [p * q for p in iv(x) for q in iv(y)]
    a, b = (x, y) if x.id <= y.id else (y, x)
    lo, hi = min(cs), max(cs)
    if x is y and lo < 0: lo = 0
    return _mk('imul', (a, b), 'i', lo, hi)


def idiv(x, y):
    if type(x) is not T and type(y) is not T: return tr_idiv(x, y)
    xl, xh = iv(x); yl, yh = iv(y)
    if yl <= 0 <= yh:
        ys = [v for v in (yl, yh, -1 if yl < 0 else None, 1 if yh > 0 else None) if v]
    else: ys = [yl, yh]
    if type(y) is not T and y > 0 and xl >= 0 and y & (y - 1) == 0: return shr(x, y.bit_length() - 1)
    cs = [tr_idiv(p, q) for p in (xl, xh) for q in ys]
    if not cs: return _mk('idiv', (x, y), 'i', xl, xh)
    if xl <= 0 <= xh: cs.append(0)
    return _mk('idiv', (x, y), 'i', min(cs), max(cs))


def irem(x, y):
    if type(x) is not T and type(y) is not T: return tr_irem(x, y)
    xl, xh = iv(x); yl, yh = iv(y)
    m = max(abs(yl), abs(yh)) - 1
    if type(y) is not T and xl > -abs(y) and xh < abs(y): return x
    if type(y) is not T and y > 0 and xl >= 0 and y & (y - 1) == 0: return iand(x, y - 1)
    return _mk('irem', (x, y), 'i', 0 if xl >= 0 else max(-m, xl), 0 if xh <= 0 else min(m, xh))


def _lowzeros(x):
    """number of known trailing zero bits"""
    if type(x) is not T:
        return 128 if x == 0 else (x & -x).bit_length() - 1
    if x.op == 'lin':
        r = 128 if x.a[0] == 0 else (x.a[0] & -x.a[0]).bit_length() - 1
        for t, c in x.a[1]:
            r = min(r, (c & -c).bit_length() - 1 + _lowzeros(t))
        return r
    if x.op == 'ite': return min(_lowzeros(x.a[1]), _lowzeros(x.a[2]))
    return 0


@dist('shr')
def shr(x, k):
    if type(k) is T:
        return _mk('shr', (x, k), 'i', min(iv(x)[0], 0), max(iv(x)[1], 0))
    if type(x) is not T: return x >> k
    if k == 0: return x
    if x.op == 'ite': return ite(x.a[0], shr(x.a[1], k), shr(x.a[2], k))
    if x.op == 'lin':
        m = 1 << k
        hi = {}
        lo = {}
        c0 = x.a[0]
        for t, c in x.a[1]:
            if c % m == 0: hi[t] = c // m
            else: lo[t] = c
        rest = mk_lin('i', c0 % m, lo)
        l, h = iv(rest)
        if 0 <= l and h < m: return mk_lin('i', c0 // m, hi)
    if x.op == 'var' or x.op == 'uf':
        if x.lo >= 0: return mkbits(x, k, max(1, x.hi.bit_length() - k))
    if x.op == 'bits' :
        if x.a[2] > k: return mkbits(x.a[0], x.a[1] + k, x.a[2] - k)
        return 0
    if x.op == 'iand' and type(x.a[1]) is int and x.lo >= 0 and type(x.a[0]) is T:
        return iand(shr(x.a[0], k), x.a[1] >> k)
    if x.op == 'ior' : return ior(shr(x.a[0], k), shr(x.a[1], k))
    return _mk('shr', (x, k), 'i', x.lo >> k, x.hi >> k)


def mkbits(x, off, w):
    if w <= 0: return 0
    if off == 0 and x.lo >= 0 and x.lo >> w == x.hi >> w and x.lo >> w: return isub(x, (x.lo >> w) << w)
    if x.lo >= 0:
        n = x.hi.bit_length()
        w = min(w, n - off)
        if w <= 0: return 0
        if off == 0 and w >= n: return x
    if x.lo >= 0 and x.lo >> off == x.hi >> off: return (x.lo >> off) & ((1 << w) - 1)
    return _mk('bits', (x, off, w), 'i', 0, (1 << w) - 1 if x.lo < 0 or x.hi >> off >= (1 << w) - 1 else x.hi >> off)


def shl(x, k):
    if type(k) is T: return _mk('shl', (x, k), 'i', -(1 << 127), 1 << 127)
    return imul(x, 1 << k)


@dist('iand')
def iand(x, y):
    if type(x) is bool or (type(x) is T and x.sort == 'b'): return b_and(x, y)
    if type(x) is not T and type(y) is not T: return x & y
    if type(x) is not T: x, y = y, x
    if type(y) is not T:
        if y == 0: return 0
        if y == -1: return x
        if x.op == 'ite': return ite(x.a[0], iand(x.a[1], y), iand(x.a[2], y))
        if y > 0:
            z = (y & -y).bit_length() - 1
            m = y >> z
            if m & (m + 1) == 0:   # contiguous mask
                w = m.bit_length()
                if z == 0:
                    if 0 <= x.lo and x.hi <= y: return x
                    if x.op == 'lin':
                        M = 1 << w
                        lo = {t: c % M for t, c in x.a[1] if c % M}
                        lo = {t: (c if c < M // 2 or t.lo < 0 else c) for t, c in lo.items()}
                        rest = mk_lin('i', x.a[0] % M, lo)
                        l, h = iv(rest)
                        if 0 <= l and h < M: return rest
                    if x.op == 'bits': return mkbits(x.a[0], x.a[1], min(w, x.a[2]))
                    if x.op == 'shr' and type(x.a[1]) is int: return mkbits(x.a[0], x.a[1], w)
                    if x.op == 'ior': return ior(iand(x.a[0], y), iand(x.a[1], y))
                    if x.op == 'iand' and type(x.a[1]) is int: return iand(x.a[0], x.a[1] & y)
                    return mkbits(x, 0, w)
                return shl(iand(shr(x, z), m), z)
    lo, hi = -(1 << 63), (1 << 63) - 1
    if iv(x)[0] >= 0 or iv(y)[0] >= 0:
        lo = 0
        hi = min(v[1] for v in (iv(x), iv(y)) if v[0] >= 0)
    return _mk('iand', (x, y), 'i', lo, hi)


def ior(x, y):
    if type(x) is bool or (type(x) is T and x.sort == 'b') or (type(y) is T and y.sort == 'b'): return b_or(x, y)
    if type(x) is not T and type(y) is not T: return x | y
    if type(x) is not T: x, y = y, x
    if type(y) is not T and y == 0: return x
    for p, q in ((x, y), (y, x)):
        z = _lowzeros(p)
        l, h = iv(q)
        if 0 <= l and h < (1 << z): return iadd(p, q)
    # general disjointness through linear parts: constant high bits
    if x.op == 'ite': return ite(x.a[0], ior(x.a[1], y), ior(x.a[2], y))
    if type(y) is T and y.op == 'ite': return ite(y.a[0], ior(x, y.a[1]), ior(x, y.a[2]))
    xl, xh = iv(x); yl, yh = iv(y)
    if _disjoint(x, y): return iadd(x, y)
    if xl >= 0 and yl >= 0:
        n = max(xh.bit_length(), yh.bit_length())
        return _mk('ior', (x, y), 'i', max(xl, yl), (1 << n) - 1)
    return _mk('ior', (x, y), 'i', -(1 << 63), (1 << 63) - 1)


def _bitmask(x):
    """superset of bits that may be set (non-negative values only), or None"""
    if type(x) is not T: return x if x >= 0 else None
    if x.lo < 0: return None
    if x.op == 'lin':
        m = x.a[0]
        if m < 0: return None
        for t, c in x.a[1]:
            if c <= 0 or t.lo < 0 or c & (c - 1): return None
            b = _bitmask(t)
            if b is None: return None
            b *= c
            if m & b: return (1 << x.hi.bit_length()) - 1
            m |= b
        return m
    return (1 << x.hi.bit_length()) - 1


def _disjoint(x, y):
    a, b = _bitmask(x), _bitmask(y)
    return a is not None and b is not None and a & b == 0


def ixor(x, y):
    if type(x) is bool or (type(x) is T and x.sort == 'b') or (type(y) is T and y.sort == 'b'):
        return b_or(b_and(x, b_not(y)), b_and(b_not(x), y))
    if type(x) is not T and type(y) is not T: return x ^ y
    xl, xh = iv(x); yl, yh = iv(y)
    if xl >= 0 and yl >= 0:
        n = max(xh.bit_length(), yh.bit_length())
        return _mk('ixor', (x, y), 'i', 0, (1 << n) - 1)
    return _mk('ixor', (x, y), 'i', -(1 << 63), (1 << 63) - 1)


@dist('wrap')
def wrap(x, bits, signed):
    if type(x) is not T: return wrapint(x, bits, signed)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if lo <= x.lo and x.hi <= hi: return x
    if x.op == 'ite': return ite(x.a[0], wrap(x.a[1], bits, signed), wrap(x.a[2], bits, signed))
    if not signed and x.lo >= 0: return iand(x, hi)
    return _mk('wrap', (x, bits, signed), 'i', lo, hi)


def _table(name, arr):
    """one name per table content (entries equal up to rounding)"""
    if TABLES.get(name) is arr: return name
    for n, a in TABLES.items():
        if len(a) == len(arr) and all(x == y or type(x) is float and type(y) is float and abs(x - y) <= 1e-12 * abs(x) for x, y in zip(a, arr)): return n
    TABLES[name] = arr
    return name


def select(tabname, i, arr):
    """element of a constant table at a symbolic index"""
    tabname = _table(tabname, arr)
    lo, hi = iv(i)
    l = max(0, lo); h = min(len(arr) - 1, hi)
    sub = arr[l:h + 1]
    s = sort_of(arr[0])
    return _mk('sel', (tabname, i), s, min(sub), max(sub), key=('sel', tabname, i.id))


def uf(name, sort, args, lo=None, hi=None, nan=False):
    if lo is None: lo, hi = {'f': (-INF, INF), 'i': (-(1 << 63), (1 << 63) - 1), 'b': (0, 1)}[sort]
    args = tuple(args)
    return _mk('uf', (name,) + args, sort, lo, hi, nan, key=('uf', name, sort) + tuple(kid(x) for x in args))


# ---------------------------------------------------------------- booleans

def b_not(x):
    if type(x) is not T: return not x
    if x.op == 'not': return x.a[0]
    return _mk('not', (x,), 'b', 0, 1)


def b_and(*xs):
    out = []
    for x in xs:
        if type(x) is not T:
            if not x: return False
            continue
        if x.op == 'and': out.extend(x.a)
        else: out.append(x)
    u = []
    seen = set()
    for x in out:
        if x.id in seen: continue
        seen.add(x.id); u.append(x)
    for x in u:
        n = x.a[0] if x.op == 'not' else None
        if n is not None and n.id in seen: return False
    if not u: return True
    if len(u) == 1: return u[0]
    u.sort(key=lambda t: t.id)
    return _mk('and', tuple(u), 'b', 0, 1)


def b_or(*xs):
    out = []
    for x in xs:
        if type(x) is not T:
            if x: return True
            continue
        if x.op == 'or': out.extend(x.a)
        else: out.append(x)
    u = []
    seen = set()
    for x in out:
        if x.id in seen: continue
        seen.add(x.id); u.append(x)
    for x in u:
        if x.op == 'not' and x.a[0].id in seen: return True
    if not u: return False
    if len(u) == 1: return u[0]
    u.sort(key=lambda t: t.id)
    return _mk('or', tuple(u), 'b', 0, 1)


def _cmp(op, x, y):
    if type(x) is T and x.op == 'ite' or type(y) is T and y.op == 'ite':
        key = ('cmp' + op, kid(x), kid(y))
        r = _dist.get(key)
        if r is None:
            r = _cmp0(op, x, y)
            _dist[key] = r
        return r
    return _cmp0(op, x, y)


def _cmp0(op, x, y):
    """op in lt, gt, eq: canonical (form REL const)"""
    if type(x) is not T and type(y) is not T:
        return {'lt': x < y, 'gt': x > y, 'eq': x == y}[op]
    for p, q, o in ((x, y, op), (y, x, {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[op])):
        # push comparisons with a constant into gates
        if type(p) is T and p.op == 'ite' and (type(q) is not T or small_ite(p)):
            return ite(p.a[0], _cmp(o, p.a[1], q), _cmp(o, p.a[2], q))
    s = sort_of(x)
    if s == 'f' and type(x) is T and x.x and type(y) is not T: return _cmp_atom(op, x, y)
    if s == 'f' and type(y) is T and y.x and type(x) is not T: return _cmp_atom({'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[op], y, x)
    if s == 'i' or sort_of(y) == 'i':
        d = isub(x, y)
    else:
        if type(y) is not T and (y != y or abs(y) == INF) or type(x) is not T and (x != x or abs(x) == INF):
            if maynan(y) and type(y) is not T or maynan(x) and type(x) is not T: return False
            a, b, o = (x, y, op) if type(x) is T else (y, x, {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[op])
            if o == 'eq': 
                if not (a.lo <= b <= a.hi): return False
                return _mk('eq', (a, b), 'b', 0, 1)
            if o == 'lt': return False if b < 0 else (True if a.hi < INF and not a.nan else _mk('lt', (a, b), 'b', 0, 1))
            return False if b > 0 else (True if a.lo > -INF and not a.nan else _mk('gt', (a, b), 'b', 0, 1))
        d = fsub(x, y)
    if type(d) is not T: return {'lt': d < 0, 'gt': d > 0, 'eq': d == 0}[op]
    if d.op == 'lin' and d.sort == 'f':
        r = factor(d)
        if r is not None: return _cmp(op, r, 0.0)
    if d.op == 'lin':
        c, ps = d.a
        k0 = ps[0][1]
        if s == 'i':
            g = 0
            for _, cc in ps: g = math.gcd(g, abs(cc))
            k0 = g if k0 > 0 else -g
            form = mk_lin('i', 0, {t: cc // k0 for t, cc in ps})
            num = -c
            # form * k0 REL num
            if op == 'eq':
                if num % k0: return False
                k = num // k0
            else:
                o = op if k0 > 0 else ('gt' if op == 'lt' else 'lt')
                # form REL num/k0 over the integers
                if o == 'lt': k = -((-num) // k0) if k0 > 0 else -((-num) // k0)
                else: k = num // k0
                # use exact rational comparison
                from fractions import Fraction
                q = Fraction(num, k0)
                k = math.ceil(q) if o == 'lt' else math.floor(q)
                op = o
        else:
            form = mk_lin('f', 0.0, {t: cc / k0 for t, cc in ps})
            k = -c / k0
            if k0 < 0: op = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[op]
    else:
        form, k = d, (0 if d.sort == 'i' else 0.0)
    if type(form) is not T:
        return {'lt': form < k, 'gt': form > k, 'eq': form == k}[op]
    if form.op == 'lin' and form.sort == 'f':  # representative may carry its own scale/const (value numbering)
        c, ps = form.a
        if c != 0 or ps[0][1] != 1.0:
            k0 = ps[0][1]
            f2 = mk_lin('f', 0.0, {t: cc / k0 for t, cc in ps})
            if type(f2) is T and f2 is not form:
                k = (k - c) / k0
                if k0 < 0: op = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[op]
                form = f2
    # transparent i2f: compare as integers
    if form.op == 'i2f':
        x = form.a[0]
        if op == 'lt': return _cmp('lt', x, math.ceil(k))
        if op == 'gt': return _cmp('gt', x, math.floor(k))
        return _cmp('eq', x, int(k)) if k == math.floor(k) else False
    if s == 'i' or form.sort == 'i':
        if op == 'gt': return b_not(_cmp_atom('lt', form, k + 1))
        return _cmp_atom(op, form, k)
    return _cmp_atom(op, form, k)


def multiple(rest, N):
    """k with rest == k * N, or None"""
    c, ps = N.a if N.op == 'lin' else (0.0, ((N, 1.0),))
    if type(rest) is not T or not ps: return None
    rc, rp = rest.a if rest.op == 'lin' else (0.0, ((rest, 1.0),))
    if len(rp) != len(ps): return None
    m = {t.id: v for t, v in rp}
    if ps[0][0].id not in m: return None
    k = m[ps[0][0].id] / ps[0][1]
    for t, v in ps:
        if t.id not in m or abs(m[t.id] - k * v) > 1e-12 * abs(k * v): return None
    return k if abs(rc - k * c) <= 1e-12 * max(abs(rc), abs(k * c)) else None


def factor(d):
    """for d == N * g with N > 0: a form of the sign of g"""
    c, ps = d.a
    for t, b in ps:
        if t.op not in ('div', 'mul') or len(ps) < 2 and c == 0: continue
        for N in ([t.a[0]] if t.op == 'div' else t.a):
            if type(N) is not T or not (N.lo > 0 and N.hi < INF) or N.nan: continue
            if t.op == 'div' and not (type(t.a[1]) is T and t.a[1].lo > 0 and not t.a[1].nan): continue
            k = multiple(fsub(d, fmul(b, t)), N)
            if k is None: continue
            if t.op == 'div': return fadd(fmul(k, t.a[1]), b)
            l = list(t.a); l.remove(N)
            g = b
            for f in l: g = fmul(g, f)
            return fadd(g, k)
    return None


def small_ite(p, n=8):
    return not type(p.a[1]) is T or not type(p.a[2]) is T


def _cmp_atom(op, form, k):
    lo, hi = form.lo, form.hi
    if not form.nan:
        if op == 'lt':
            if hi < k: return True
            if lo >= k: return False
        elif op == 'gt':
            if lo > k: return True
            if hi <= k: return False
        else:
            if k < lo or k > hi: return False
            if lo == hi == k: return True
    if form.sort == 'f':
        if k == 0: k = 0.0
        if form.op == 'mul' and len(form.a) == 3 and form.a[0] is form.a[1] is form.a[2]:
            return _cmp(op, form.a[0], _cbrt(k))      # the cube is increasing
        # thresholds that differ by rounding only are the same threshold
        l = _ks.setdefault((op, form.id), [])
        for q in l:
            if abs(q - k) <= 1e-12 * max(abs(q), abs(k)): k = q; break
        else: l.append(k)
    return _mk(op, (form, k), 'b', 0, 1)


def lt(x, y): return _cmp('lt', x, y)
def gt(x, y): return _cmp('gt', x, y)
def le(x, y): return b_not(_cmp('gt', x, y)) if not (type(x) is float and x != x) and not (type(y) is float and y != y) else False
def ge(x, y): return b_not(_cmp('lt', x, y)) if not (type(x) is float and x != x) and not (type(y) is float and y != y) else False


def eq(x, y):
    sx, sy = sort_of(x), sort_of(y)
    if sx == 'b' or sy == 'b':
        if type(x) is not T: x, y = y, x
        if type(x) is not T: return x == y
        if type(y) is not T: return x if y else b_not(x)
        if x is y: return True
        return b_or(b_and(x, y), b_and(b_not(x), b_not(y)))
    if x is y: return True
    return _cmp('eq', x, y)


def ne(x, y): return b_not(eq(x, y))


def ite(c, a, b):
    if type(c) is not T: return a if c else b
    if a is b: return a
    ka, kb = type(a), type(b)
    if ka is not T and kb is not T and ka is kb and (a == b or (a != a and b != b)): return a
    if c.op == 'not': return ite(c.a[0], b, a)
    s = sort_of(a)
    if s == 'b':
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if ka is T and a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if type(b) is T and b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    la, ha = iv(a); lb, hb = iv(b)
    nan = maynan(a) or maynan(b)
    if type(a) is float and a != a: la, ha = lb, hb
    if type(b) is float and b != b: lb, hb = la, ha
    return _mk('ite', (c, a, b), s, min(la, lb), max(ha, hb), nan)


@dist('fabs')
def fabs(x):
    if type(x) is not T: return abs(x)
    if x.op == 'ite': return ite(x.a[0], fabs(x.a[1]), fabs(x.a[2]))
    if x.lo >= 0: return x
    if x.hi <= 0: return fneg(x)
    c, ps = linform(x)
    t = ite(lt(x, 0.0), fneg(x), x)
    if is_t(t) and t.op == 'ite':
        t.lo = max(t.lo, 0.0)
    return t


def iabs(x):
    if type(x) is not T: return abs(x)
    if x.lo >= 0: return x
    t = ite(lt(x, 0), isub(0, x), x)
    if is_t(t) and t.op == 'ite': t.lo = max(t.lo, 0)
    return t


def fmin(x, y):
    if type(x) is not T and type(y) is not T:
        if x != x: return y
        if y != y: return x
        return min(x, y)
    t = ite(lt(y, x), y, x)
    if is_t(t) and t.op == 'ite': t.hi = min(t.hi, iv(x)[1], iv(y)[1])
    return t


def fmax(x, y):
    if type(x) is not T and type(y) is not T:
        if x != x: return y
        if y != y: return x
        return max(x, y)
    t = ite(gt(y, x), y, x)
    if is_t(t) and t.op == 'ite': t.lo = max(t.lo, iv(x)[0], iv(y)[0])
    return t


# ---------------------------------------------------------------- printing, traversal

def show(x, depth=6):
    if type(x) is not T:
        return repr(x)
    if depth <= 0: return '…'
    s = lambda y: show(y, depth - 1)
    if x.op == 'var': return x.a[0]
    if x.op == 'lin':
        parts = []
        for t, c in x.a[1]:
            parts.append(s(t) if c == 1 else '%g*%s' % (c, s(t)) if x.sort == 'f' else '%d*%s' % (c, s(t)))
        if x.a[0]: parts.append('%r' % (x.a[0],))
        return '(' + ' + '.join(parts) + ')'
    if x.op in ('lt', 'gt', 'eq'): return '%s %s %r' % (s(x.a[0]), {'lt': '<', 'gt': '>', 'eq': '=='}[x.op], x.a[1])
    if x.op == 'ite': return 'if(%s){%s}else{%s}' % tuple(s(y) for y in x.a)
    if x.op == 'uf': return '%s(%s)' % (x.a[0], ', '.join(s(y) for y in x.a[1:]))
    return '%s(%s)' % (x.op, ', '.join(s(y) if not isinstance(y, str) else y for y in x.a))


def walk(x, seen=None):
    seen = set() if seen is None else seen
    if type(x) is not T: return
    st = [x]
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        yield t
        st.extend(children(t))


def atoms(x, seen=None):
    return [t for t in walk(x, seen) if t.sort == 'b' and t.op in ('lt', 'gt', 'eq', 'uf', 'var')]


def variables(x):
    return [t for t in walk(x) if t.op == 'var']
