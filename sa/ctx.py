"""Path facts: decided atoms plus interval refinements of terms (bounds propagation both ways)."""
import math
from terms import *
import terms as TT

MAXD = 14


class Infeasible(Exception):
    pass


class Ctx:
    __slots__ = ('facts', 'ref', 'memo', 'ors', 'hist', 'dm')

    def __init__(self):
        self.facts = {}
        self.ref = {}
        self.memo = {}
        self.dm = {}
        self.ors = ()
        self.hist = ()

    def copy(self):
        c = Ctx()
        c.facts = dict(self.facts)
        c.ref = dict(self.ref)
        c.ors = self.ors
        c.hist = self.hist
        return c

    # ---- intervals
    def _norm(self, x):
        """interval of a linear form through the facts about its canonical (scaled) form"""
        c, ps = x.a
        k0 = ps[0][1]
        f = x._lf
        if f is None:
            if x.sort == 'f': f = TT.mk_lin('f', 0.0, {t: cc / k0 for t, cc in ps})
            else:
                g = 0
                for _, cc in ps: g = math.gcd(g, abs(cc))
                k0 = g if k0 > 0 else -g
                f = TT.mk_lin('i', 0, {t: cc // k0 for t, cc in ps})
            x._lf = f = (f, k0)
        f, k0 = f
        if f is x or type(f) is not T: return None
        r = self.ref.get(f.id)
        if r is None: return None
        l, h = (k0 * r[0], k0 * r[1]) if k0 > 0 else (k0 * r[1], k0 * r[0])
        return l + c, h + c

    def iv(self, x, d=0):
        if type(x) is not T:
            return TT.iv(x)
        if not self.ref and not self.facts: return x.lo, x.hi
        m = self.memo.get(x.id)
        if m is not None: return m
        lo, hi = x.lo, x.hi
        r = self.ref.get(x.id)
        if r is not None: lo, hi = max(lo, r[0]), min(hi, r[1])
        if d < MAXD:
            n = self._fwd(x, d)
            if n is not None:
                lo, hi = max(lo, n[0]), min(hi, n[1])
            if x.op == 'lin' and len(x.a[1]) > 1:
                n = self._norm(x)
                if n is not None: lo, hi = max(lo, n[0]), min(hi, n[1])
            self.memo[x.id] = (lo, hi)
        return lo, hi

    def _fwd(self, x, d):
        op = x.op
        a = x.a
        if op == 'var' or op == 'uf' or x.sort == 'b': return None
        g = lambda y: self.iv(y, d + 1)
        if op == 'lin':
            lo = hi = a[0]
            ch = False
            for t, c in a[1]:
                l, h = g(t)
                if c < 0: l, h = h, l
                pl, ph = c * l, c * h
                lo = lo + pl; hi = hi + ph
            if x.sort == 'f':
                if lo != lo or hi != hi: return None
                e = (abs(lo) + abs(hi)) * 1e-15 if lo > -INF and hi < INF else 0
                if not all(TT.isintval(t) and c == int(c) for t, c in a[1]):
                    lo -= e; hi += e
            return lo, hi
        if op == 'ite':
            c = self.decide(a[0], d + 1)
            if c is True: return g(a[1])
            if c is False: return g(a[2])
            l1, h1 = g(a[1]); l2, h2 = g(a[2])
            return min(l1, l2), max(h1, h2)
        if op == 'mul':
            l, h = g(a[0])
            for y in a[1:]:
                l2, h2 = g(y)
                ps = [0.0 if p == 0 or q == 0 else p * q for p in (l, h) for q in (l2, h2)]
                l, h = min(ps), max(ps)
            if len(a) == 2 and a[0] is a[1]:
                p, q = g(a[0])
                l = 0.0 if p <= 0 <= q else min(p * p, q * q); h = max(p * p, q * q)
            return _out(l, h)
        if op == 'imul':
            p, q = g(a[0]), g(a[1])
            ps = [i * j for i in p for j in q]
            return min(ps), max(ps)
        if op == 'div':
            (l, h), (l2, h2) = g(a[0]), g(a[1])
            if l2 > 0 or h2 < 0:
                ps = []
                for p in (l, h):
                    for q in (l2, h2):
                        if abs(q) == INF: ps.append(0.0)
                        else: ps.append(p / q)
                return _out(min(ps), max(ps))
            return None
        if op in ('sqrt', 'exp', 'ln', 'cbrt', 'log10', 'atan', 'expm1'):
            l, h = g(a[0])
            f = UNARY[op]
            l2, h2 = f(l), f(h)
            if l2 != l2: l2 = -INF if op != 'sqrt' else 0.0
            if h2 != h2: return None
            return _out(l2, h2)
        if op in STEP:
            l, h = g(a[0])
            return STEP[op](l), STEP[op](h)
        if op == 'pow':
            (l, h), (p, q) = g(a[0]), g(a[1])
            if l < 0:
                return None
            c = [TT._pow(i, j) for i in (l, h) for j in (p, q)]
            if any(v != v for v in c): return None
            if l < 1 < h and p != q: c.append(1.0)
            return _out(min(c), max(c))
        if op == 'i2f':
            l, h = g(a[0])
            return float(l), float(h)
        if op == 'f2i':
            l, h = g(a[0])
            lo, hi = a[1], a[2]
            l = lo if l <= lo else (math.trunc(l) if l < hi else hi)
            h = hi if h >= hi else (math.trunc(h) if h > lo else lo)
            if x.nan or a[0].nan: return min(l, 0), max(h, 0)
            return l, h
        if op == 'rem' and type(a[1]) is not T:
            l, h = g(a[0])
            m = abs(a[1])
            if l >= 0: return 0.0, min(h, m)
            if h <= 0: return max(l, -m), 0.0
            return None
        if op == 'irem' and type(a[1]) is not T:
            l, h = g(a[0]); m = abs(a[1]) - 1
            return (0 if l >= 0 else max(l, -m)), (0 if h <= 0 else min(h, m))
        if op == 'idiv' and type(a[1]) is not T and a[1] > 0:
            l, h = g(a[0])
            return tr_idiv(l, a[1]), tr_idiv(h, a[1])
        if op == 'shr' and type(a[1]) is not T:
            l, h = g(a[0])
            return l >> a[1], h >> a[1]
        if op in ('xadd', 'xmul', 'xdiv'): return TT.ieee_iv(op, g(a[0]), g(a[1]))
        if op == 'atan2':
            (l, h), (l2, h2) = g(a[0]), g(a[1])
            if l >= 0: return 0.0, math.pi
            if h <= 0: return -math.pi, 0.0 if not h2 < 0 else math.pi
            return None
        if op == 'sel':
            l, h = g(a[1])
            arr = TABLES[a[0]]
            l = max(0, l); h = min(len(arr) - 1, h)
            if l > h: return None
            s = arr[l:h + 1]
            return min(s), max(s)
        return None

    # ---- decisions
    def decide(self, c, d=0):
        if type(c) is not T: return c
        f = self.facts.get(c.id)
        if f is not None: return f
        if c.id in self.dm: return self.dm[c.id]
        r = self._decide(c, d)
        self.dm[c.id] = r
        return r

    def _decide(self, c, d):
        op = c.op
        if op == 'not':
            r = self.decide(c.a[0], d)
            return None if r is None else (not r)
        if op == 'and':
            res = True
            for x in c.a:
                r = self.decide(x, d)
                if r is False: return False
                if r is None: res = None
            return res
        if op == 'or':
            res = False
            for x in c.a:
                r = self.decide(x, d)
                if r is True: return True
                if r is None: res = None
            return res
        if op in ('lt', 'gt', 'eq'):
            form, k = c.a
            lo, hi = self.iv(form, d)
            if op == 'lt':
                if hi < k: return True
                if lo >= k: return False
            elif op == 'gt':
                if lo > k: return True
                if hi <= k: return False
            else:
                if k < lo or k > hi: return False
                if lo == hi == k: return True
            # related atoms on the same form
            return None
        return None

    # ---- assumptions
    def assume(self, c, val=True):
        """new context with the fact added; raises Infeasible"""
        n = self.copy()
        n._add(c, val)
        n._saturate()
        n.hist = self.hist + ((c, val),)
        return n

    def _add(self, c, val):
        if type(c) is not T:
            if bool(c) != val: raise Infeasible()
            return
        r = self.decide(c)
        if r is not None:
            if r != val: raise Infeasible()
            self.facts[c.id] = val
            if c.op in ('lt', 'gt', 'eq', 'var', 'uf'): return
        self.facts[c.id] = val
        self.dm = {}; self.memo = {}
        op = c.op
        if op == 'not': return self._add(c.a[0], not val)
        if op == 'and':
            if val:
                for x in c.a: self._add(x, True)
            else: self.ors = self.ors + (tuple((x, False) for x in c.a),)
            return
        if op == 'or':
            if not val:
                for x in c.a: self._add(x, False)
            else: self.ors = self.ors + (tuple((x, True) for x in c.a),)
            return
        if op in ('lt', 'gt', 'eq'):
            form, k = c.a
            isint = form.sort == 'i'
            lo, hi = self.iv(form)
            if op == 'lt':
                if val: hi = min(hi, k - 1 if isint else math.nextafter(k, -INF))
                else: lo = max(lo, k)
            elif op == 'gt':
                if val: lo = max(lo, k + 1 if isint else math.nextafter(k, INF))
                else: hi = min(hi, k)
            else:
                if val: lo = max(lo, k); hi = min(hi, k)
                elif isint or TT.isintval(form):
                    if lo == k: lo = k + 1
                    if hi == k: hi = k - 1
            self.refine(form, lo, hi, 0)

    def refine(self, x, lo, hi, d):
        """intersect the interval of x and push down"""
        if type(x) is not T:
            if lo > x or hi < x: raise Infeasible()
            return
        l0, h0 = self.iv(x)
        lo = max(lo, l0); hi = min(hi, h0)
        if lo > hi:
            # tolerate rounding slivers for floats
            if x.sort == 'f' and lo - hi <= 1e-12 * max(1.0, abs(lo)) and False: hi = lo
            else: raise Infeasible()
        if lo == l0 and hi == h0: return
        self.ref[x.id] = (lo, hi)
        self.memo = {}; self.dm = {}
        if d > 8: return
        op, a = x.op, x.a
        if op == 'lin':
            c0, ps = a
            if len(ps) > 12: return
            ivs = [self.iv(t) for t, _ in ps]
            for i, (t, c) in enumerate(ps):
                # c*t in [lo - rest_hi, hi - rest_lo]
                rl = rh = c0
                for j, (u, cu) in enumerate(ps):
                    if j == i: continue
                    l, h = ivs[j]
                    if cu < 0: l, h = h, l
                    rl += cu * l; rh += cu * h
                nl, nh = lo - rh, hi - rl
                if nl != nl or nh != nh: continue
                if x.sort == 'f':
                    nl, nh = nl / c, nh / c
                    if c < 0: nl, nh = nh, nl
                    if len(ps) > 1 or c != 1.0 or c0 != 0:
                        e = 1e-15 * (abs(nl) if abs(nl) != INF else 0) + 1e-15 * (abs(nh) if abs(nh) != INF else 0) + 1e-300
                        nl -= e; nh += e
                else:
                    if c < 0: nl, nh = -nh, -nl; c = -c
                    nl, nh = -((-nl) // c), nh // c
                self.refine(t, nl, nh, d + 1)
        elif op == 'i2f':
            self.refine(a[0], math.ceil(lo) if lo > -INF else a[0].lo, math.floor(hi) if hi < INF else a[0].hi, d + 1)
        elif op == 'sqrt':
            if lo > 0: self.refine(a[0], lo * lo * (1 - 1e-14), INF, d + 1)
            if hi < INF and not a[0].nan: self.refine(a[0], -INF, hi * hi * (1 + 1e-14), d + 1)
        elif op == 'exp' and lo > 0:
            self.refine(a[0], math.log(lo) - 1e-13, math.log(hi) + 1e-13 if hi < INF else INF, d + 1)
        elif op == 'ln' and hi < 700 and lo > -700:
            self.refine(a[0], math.exp(lo) * (1 - 1e-13), math.exp(hi) * (1 + 1e-13), d + 1)
        elif op == 'cbrt':
            self.refine(a[0], lo ** 3 - abs(lo ** 3) * 1e-13 if abs(lo) < 1e90 else -INF, hi ** 3 + abs(hi ** 3) * 1e-13 if abs(hi) < 1e90 else INF, d + 1)
        elif op == 'pow' and type(a[1]) is not T and a[1] > 0:
            l, h = self.iv(a[0])
            if l >= 0:
                nl = TT._pow(max(lo, 0.0), 1 / a[1]); nh = TT._pow(hi, 1 / a[1]) if hi >= 0 else -1.0
                self.refine(a[0], nl * (1 - 1e-12), nh * (1 + 1e-12), d + 1)
        elif op == 'floor':
            self.refine(a[0], lo, hi + 1, d + 1)
        elif op == 'ceil':
            self.refine(a[0], lo - 1, hi, d + 1)
        elif op == 'round':
            self.refine(a[0], lo - 0.5, hi + 0.5, d + 1)
        elif op == 'f2i':
            if not a[0].nan:
                self.refine(a[0], float(lo - 1) if lo > a[1] and lo <= 0 else (float(lo) if lo > a[1] else -INF),
                            float(hi + 1) if hi < a[2] else INF, d + 1)
        elif op == 'mul' and len(a) == 2:
            for i in (0, 1):
                p = self.iv(a[1 - i])
                if p[0] > 0 and abs(p[1]) != INF:
                    c = [v / q for v in (lo, hi) for q in p if not (abs(v) == INF)]
                    if abs(lo) != INF and abs(hi) != INF:
                        m = 1e-14
                        self.refine(a[i], min(c) - abs(min(c)) * m, max(c) + abs(max(c)) * m, d + 1)
        elif op == 'ite':
            c = self.decide(a[0])
            if c is True: self.refine(a[1], lo, hi, d + 1)
            elif c is False: self.refine(a[2], lo, hi, d + 1)
            else:
                p, q = self.iv(a[1]), self.iv(a[2])
                if p[1] < lo or p[0] > hi: self._add(a[0], False)
                elif q[1] < lo or q[0] > hi: self._add(a[0], True)

    def _saturate(self):
        if not self.ors: return
        changed = True
        n = 0
        while changed and n < 6:
            changed = False
            n += 1
            keep = []
            for cl in self.ors:
                und = []
                sat = False
                for (x, v) in cl:
                    r = self.decide(x)
                    if r is None: und.append((x, v))
                    elif r == v: sat = True; break
                if sat: continue
                if not und: raise Infeasible()
                if len(und) == 1:
                    self._add(und[0][0], und[0][1]); changed = True
                else: keep.append(tuple(und))
            self.ors = tuple(keep)


def _out(l, h):
    if l != l or h != h: return None
    return (l - abs(l) * 1e-15 if abs(l) != INF else l), (h + abs(h) * 1e-15 if abs(h) != INF else h)


REBUILD = {}


def simplify(x, ctx, memo):
    """rebuild x with gates decided by ctx removed"""
    if type(x) is not T: return x
    if not x.sb: 
        if x.sort == 'b':
            r = ctx.decide(x)
            if r is not None: return r
            if x.op == 'and': return b_and(*[simplify(y, ctx, memo) for y in x.a])
            if x.op == 'or': return b_or(*[simplify(y, ctx, memo) for y in x.a])
            return x
        return x
    r = memo.get(x.id)
    if r is not None: return r
    op, a = x.op, x.a
    if op == 'bits' and a[1] == 0:
        l, h = ctx.iv(a[0])
        if 0 <= l and h < 1 << a[2]:
            r = memo[x.id] = simplify(a[0], ctx, memo)
            return r
    elif op == 'wrap':
        l, h = ctx.iv(a[0])
        lo, hi = (-(1 << (a[1] - 1)), (1 << (a[1] - 1)) - 1) if a[2] else (0, (1 << a[1]) - 1)
        if lo <= l and h <= hi:
            r = memo[x.id] = simplify(a[0], ctx, memo)
            return r
    if x.sort == 'b' and not x.gated:
        r = ctx.decide(x)
        if r is not None: return r
    if op == 'ite':
        c = ctx.decide(a[0])
        if c is None:
            c = simplify(a[0], ctx, memo)
            if type(c) is T:
                d = ctx.decide(c)
                if d is not None: c = d
        if c is True: r = simplify(a[1], ctx, memo)
        elif c is False: r = simplify(a[2], ctx, memo)
        else: r = ite(c, simplify(a[1], ctx, memo), simplify(a[2], ctx, memo))
    else:
        r = rebuild(x, [simplify(y, ctx, memo) for y in args_of(x)])
    memo[x.id] = r
    return r


def args_of(x):
    if x.op == 'lin': return [t for t, _ in x.a[1]]
    return [y for y in x.a]


def rebuild(x, n):
    op, a = x.op, x.a
    if op == 'lin':
        r = a[0]
        add, mul = (fadd, fmul) if x.sort == 'f' else (iadd, imul)
        for (t, c), y in zip(a[1], n): r = add(r, mul(c, y))
        return r
    if all(p is q for p, q in zip(a, n)): return x
    if op == 'ite': return ite(*n)
    if op == 'mul':
        r = n[0]
        for y in n[1:]: r = fmul(r, y)
        return r
    if op == 'imul': return imul(*n)
    if op == 'div': return fdiv(*n)
    if op == 'pow': return fpow(*n)
    if op in UNARY: return funary(op, n[0])
    if op in STEP: return fstep(op, n[0])
    if op == 'rem': return frem_(*n)
    if op == 'atan2': return fatan2(*n)
    if op in ('xadd', 'xmul', 'xdiv'): return TT.ieee(op, *n)
    if op == 'hypot': return fhypot(*n)
    if op == 'f2i': return f2i(n[0], a[1], a[2])
    if op == 'i2f': return i2f(n[0])
    if op == 'bits': return iand(shr(n[0], a[1]), (1 << a[2]) - 1)
    if op == 'iand': return iand(*n)
    if op == 'ior': return ior(*n)
    if op == 'ixor': return ixor(*n)
    if op == 'shl': return shl(*n)
    if op == 'shr': return shr(*n)
    if op == 'idiv': return idiv(*n)
    if op == 'irem': return irem(*n)
    if op == 'wrap': return wrap(n[0], a[1], a[2])
    if op in ('lt', 'gt', 'eq'): return TT._cmp(op, n[0], a[1])
    if op == 'not': return b_not(n[0])
    if op == 'and': return b_and(*n)
    if op == 'or': return b_or(*n)
    if op == 'sel':
        if type(n[1]) is T: return select(a[0], n[1], TABLES[a[0]])
        return TABLES[a[0]][n[1]] if 0 <= n[1] < len(TABLES[a[0]]) else x      # out of range: a dead arm
    if op == 'uf': return uf(a[0], x.sort, n[1:], x.lo, x.hi, x.nan)
    raise NotImplementedError(op)
