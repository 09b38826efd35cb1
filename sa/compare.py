"""Deciding equality of two gated value graphs under path facts, and concretising disagreements.

prove    : identical value numbers, or identical after deciding / splitting gates (bounded).
refute   : a valuation of the inputs that satisfies the path facts and on which the two graphs have
           clearly different values (beyond the propagated rounding-error bound).
otherwise: 'agree' (no proof within budget, no disagreement on any of the gate-directed valuations).
"""
import math, random, time
from terms import *
import terms as TT
from ctx import Ctx, Infeasible, simplify
import fast


def close(v, e, w, d, rtol=1e-9):
    if type(v) is bool or type(w) is bool: return v == w
    if type(v) is int and type(w) is int: return v == w
    if v != v or w != w: return v != v and w != w
    if abs(v) == INF or abs(w) == INF: return v == w
    if e == INF or d == INF: return True
    return abs(v - w) <= 64 * (e + d) + rtol * max(abs(v), abs(w)) + 1e-12


class Budget:
    def __init__(self, nodes=1500, secs=20.0, leaf=None):
        self.nodes = nodes; self.t = time.time() + secs
        self.leaf = leaf        # called with the path facts of a case that could not be proved; True: stop
        self.stop = False

    def tick(self):
        self.nodes -= 1
        return self.nodes >= 0 and time.time() < self.t


def prove(x, y, ctx, bud):
    """True if x == y for every valuation satisfying ctx; None if not established"""
    if x is y: return True
    if type(x) is not T and type(y) is not T:
        if type(x) is float or type(y) is float: r = close(float(x), abs(x) * 1e-15, float(y), 0.0, 1e-12)
        else: r = x == y
        return True if r else unproved(ctx, bud)
    if bud.stop or not bud.tick(): return None
    x = simplify(x, ctx, {})
    y = simplify(y, ctx, {})
    if x is y: return True
    if type(x) is not T and type(y) is not T: return prove(x, y, ctx, bud)
    if sort_of(x) == 'b':
        d, f = (ctx.decide(v) if type(v) is T else v for v in (x, y))
        if d is not None and f is not None: return True if d == f else unproved(ctx, bud)
    # congruence for linear forms with one gated difference
    if sort_of(x) in ('f', 'i'):
        dlt = (fsub if sort_of(x) == 'f' else isub)(x, y)
        if type(dlt) is not T:
            return True if abs(dlt) <= 1e-9 * max(1.0, abs(TT.iv(x)[1]) if abs(TT.iv(x)[1]) < 1e12 else 1.0) and (sort_of(x) == 'f' or dlt == 0) else unproved(ctx, bud)
        lo, hi = ctx.iv(dlt)
        if lo == hi == 0: return True
        if sort_of(x) == 'f' and -1e-9 <= lo and hi <= 1e-9 and not dlt.nan: return True
    c = pick(x, y, ctx)
    if c is None: return by_equalities(x, y, ctx) or unproved(ctx, bud)
    ok = True
    for val in (True, False):
        try: n = ctx.assume(c, val)
        except Infeasible: continue
        if prove(x, y, n, bud) is not True:
            ok = None
            if bud.leaf is None or bud.stop: return None
    return ok


def unproved(ctx, bud):
    if bud.leaf is not None and not bud.stop and bud.leaf(ctx): bud.stop = True
    return None


def by_equalities(x, y, ctx):
    """use the equations among the path facts (a form pinned to one value) as rewrites"""
    for at, _ in ctx.hist:
        if type(at) is not T: continue
        while at.op == 'not': at = at.a[0]
        if at.op not in ('lt', 'gt', 'eq'): continue
        f, k = at.a
        lo, hi = ctx.iv(f)
        if lo != hi: continue
        f = simplify(f, ctx, {})
        if type(f) is not T: continue
        if f.op == 'lin':
            c0, ps = f.a
            for t, c in ps:
                add, sub = (fadd, fsub) if f.sort == 'f' else (iadd, isub)
                if f.sort == 'i' and abs(c) != 1: continue
                rest = sub(lo, c0)
                for u, d in ps:
                    if u is not t: rest = sub(rest, (fmul if f.sort == 'f' else imul)(d, u))
                rest = fdiv(rest, c) if f.sort == 'f' else imul(rest, c)
                m = {t.id: rest}
                if subst(x, dict(m)) is subst(y, dict(m)): return True
        else:
            if subst(x, {f.id: lo}) is subst(y, {f.id: lo}): return True
    return None


def subst(x, m):
    if type(x) is not T: return x
    r = m.get(x.id)
    if r is None:
        from ctx import args_of, rebuild
        a = args_of(x)
        n = [subst(v, m) if type(v) is T else v for v in a]
        r = m[x.id] = x if all(p is q for p, q in zip(a, n)) else rebuild(x, n)
    return r


def top_gate(x, ctx, n=400):
    """an undecided gate condition atom close to the root"""
    seen = set()
    q = [x]
    i = 0
    while i < len(q) and n > 0:
        t = q[i]; i += 1; n -= 1
        if type(t) is not T or t.id in seen: continue
        seen.add(t.id)
        if t.sort == 'b':
            a = first_atom(t, ctx)
            if a is not None: return a
            continue
        if t.op == 'ite':
            a = first_atom(t.a[0], ctx)
            if a is not None: return a
        if t.gated: q.extend(children(t))
    return None


def first_atom(c, ctx):
    seen = set()
    st = [c]
    while st:
        t = st.pop()
        if type(t) is not T or t.id in seen: continue
        seen.add(t.id)
        if t.op in ('and', 'or', 'not'): st.extend(reversed(t.a)); continue
        if t.op in ('lt', 'gt', 'eq') and t.a[0].gated:
            # a comparison over a gated form: split the inner gate first
            for u in walk(t.a[0]):
                if u.op == 'ite':
                    a = first_atom(u.a[0], ctx)
                    if a is not None: return a
        if ctx.decide(t) is None: return t
    return None


def pick(x, y, ctx):
    for t in (x, y):
        if type(t) is T and (t.gated or t.sort == 'b'):
            a = top_gate(t, ctx)
            if a is not None: return a
    return None


def bounded(x, ctx, lo, hi, lo_open, hi_open, bud):
    l, h = ctx.iv(x) if type(x) is T else (x, x)
    s = 1e-9 * max(1.0, abs(lo) if abs(lo) < 1e300 else 1.0, abs(hi) if abs(hi) < 1e300 else 1.0) if type(x) is T and x.sort == 'f' else 0
    if (l > lo or not lo_open and l >= lo - s) and (h < hi or not hi_open and h <= hi + s) and not (type(x) is T and x.nan): return True
    if not bud.tick(): return False
    x = simplify(x, ctx, {})
    if type(x) is not T: return lo <= x <= hi
    c = top_gate(x, ctx)
    if c is None: return False
    for v in (True, False):
        try: n = ctx.assume(c, v)
        except Infeasible: continue
        if not bounded(x, n, lo, hi, lo_open, hi_open, bud): return False
    return True


def escape(x, ctx, lo, hi, lo_open, hi_open, seed, n, secs=10.0):
    s = Search([x], ctx, seed)
    end = time.time() + secs
    for i in range(n):
        if time.time() > end: break
        pt = s.point(ctx)
        m = pt.memo()
        try:
            if not pt.consistent(m) or not holds(ctx, pt.val, m): continue
            v, e = evaluate(x, pt.val, m)
        except (OverflowError, ZeroDivisionError, ValueError): continue
        if v is None: continue
        if v != v: return pt.show(), v
        tol = 64 * e + 1e-12 if type(v) is float else 0
        if v < lo - tol or v > hi + tol or (lo_open and e == 0 and v == lo) or (hi_open and e == 0 and v == hi): return pt.show(), v
    return None


# ------------------------------------------------------------------ valuations

class Sampler:
    def __init__(self, seed=1): self.seed = seed

    def draw(self, v, ctx, rng, pool):
        lo, hi = ctx.iv(v)
        if v.sort == 'b':
            d = ctx.decide(v)
            return d if d is not None else rng.random() < 0.5
        if v.sort == 'i':
            r = rng.random()
            if pool and r < 0.35:
                c = rng.choice(pool) + rng.choice((-1, 0, 0, 1))
                if lo <= c <= hi: return c
            if r < 0.45: return rng.choice((lo, hi))
            if hi - lo > 1 << 20 and r < 0.6:
                # structured packed values
                b = [rng.choice((0, 1, 127, 128, 254, 255, rng.randint(0, 255))) for _ in range(4)]
                c = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]
                if lo <= c <= hi: return c
            return rng.randint(lo, hi) if lo <= hi else lo
        L, H = max(lo, -1e9), min(hi, 1e9)
        if L > H: return float(lo if lo > -INF else hi)
        r = rng.random()
        if pool and r < 0.4:
            c = float(rng.choice(pool))
            m = rng.random()
            if m < 0.45: pass
            elif m < 0.6: c += rng.choice((-1, 1)) * 1e-6 * max(1.0, abs(c))
            elif m < 0.8: c += rng.uniform(-0.6, 0.6)
            else: c += rng.choice((-1, 1)) * abs(c) * rng.random() * 0.1
            if L <= c <= H: return c
        if r < 0.46: return rng.choice((L, H)) if H - L < 1e7 else 0.0 if L <= 0 <= H else L
        if r < 0.52 and H - L < 1e7:
            d = (H - L) * 10 ** rng.uniform(-5, -0.7)
            return L + d if rng.random() < 0.5 else H - d
        if r < 0.62:
            a, b = max(L, -400.), min(H, 400.)
            if a <= b:
                c = float(round(rng.uniform(a, b)))
                if L <= c <= H: return c
        if H - L > 2000:
            a, b = max(L, -400.), min(H, 400.)
            if a < b and rng.random() < 0.8: return rng.uniform(a, b)
        return rng.uniform(L, H)


def holds(ctx, val, memo):
    for c, v in ctx.hist:
        r = evaluate(c, val, memo)[0]
        if r is None or bool(r) != v: return False
    return True


def all_vars(terms, ctx):
    """input variables, and uninterpreted results (summaries of lower layers) that may take any value"""
    vs = {}
    ufs = {}
    seen = set()
    for t in list(terms) + [c for c, _ in ctx.hist]:
        if type(t) is T:
            for u in walk(t, seen):
                if u.op == 'var': vs[u.id] = u
                elif u.op == 'uf': ufs[u.id] = u
    return list(vs.values()), list(ufs.values())


def _sig(x):
    """arguments equal up to rounding are the same argument"""
    if type(x) is not float: return x
    return round(x, 8) if -1.0 < x < 1.0 else float('%.9g' % x)


def _near(k, l):
    for a, b in zip(k, l):
        if a is b or a == b: continue
        if type(a) is not float or type(b) is not float or not abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b)): return False
    return True


class Point:
    """a valuation: values of the variables and, optionally, of uninterpreted results"""
    def __init__(self, val, ufv=None): self.val = val; self.ufv = ufv or {}

    def memo(self):
        return {t.id: (v, 0) for t, v in self.ufv.items()}

    def consistent(self, memo):
        """functional consistency of the values chosen for uninterpreted results"""
        by = {}
        for t in self.ufv: by.setdefault((t.a[0], len(t.a)), []).append(t)
        groups = [l for l in by.values() if len(l) > 1]
        for _ in range(4):
            changed = False
            for l in groups:
                seen = []
                for t in l:
                    k = tuple(evaluate(a, self.val, memo)[0] if type(a) is T else a for a in t.a[1:])
                    if None in k: return False      # too close to a gate to tell which argument this is
                    for k2, v2 in seen:
                        if _near(k, k2):
                            if v2 != self.ufv[t]: self.ufv[t] = v2; changed = True
                            break
                    else: seen.append((k, self.ufv[t]))
            if not changed: return True
            memo.clear(); memo.update(self.memo())
        return False

    def show(self):
        d = dict(self.val)
        for t, v in self.ufv.items(): d[show(t, 2)] = v
        return d


class Search:
    def __init__(self, terms, ctx, seed):
        self.vs, self.ufs = all_vars(terms, ctx)
        self.ctx = ctx
        self.terms = [t for t in terms if type(t) is T]
        self.rng = random.Random(h64('search', seed, tuple(sorted(v.a[0] for v in self.vs)), len(self.ufs)))
        self.s = Sampler(seed)
        self.dep = {}
        self.pool, self.lin = self.thresholds()

    def thresholds(self):
        pool = {}
        lin = []
        seen = set()
        for t in self.terms + [c for c, _ in self.ctx.hist if type(c) is T]:
            for a in atoms(t, seen):
                if a.op not in ('lt', 'gt', 'eq'): continue
                f, k = a.a
                if type(k) is float and (k != k or abs(k) == INF): continue
                if f.op in ('var', 'uf'): pool.setdefault(f.id, set()).add(k); continue
                if f.op == 'i2f' and f.a[0].op in ('var', 'uf'): pool.setdefault(f.a[0].id, set()).add(int(k)); continue
                if f.op in ('round', 'floor', 'ceil', 'trunc') and type(f.a[0]) is T and f.a[0].op in ('var', 'uf'):
                    pool.setdefault(f.a[0].id, set()).update((k, k - 0.5, k + 0.5)); continue
                if f.op == 'lin':
                    ps = f.a[1]
                    if len(ps) == 1 and ps[0][0].op in ('var', 'uf'):
                        pool.setdefault(ps[0][0].id, set()).add((k - f.a[0]) / ps[0][1] if f.sort == 'f' else (k - f.a[0]) // ps[0][1]); continue
                    if all(p.op in ('var', 'uf') for p, _ in ps): lin.append((f, k))
        for v in self.vs:
            sp = TT.SPECIALS.get(v.id)
            if sp and len(pool.get(v.id, ())) < 4 * len(sp): pool.setdefault(v.id, set()).update(sp)
        return {k: sorted(p for p in v if p == p) for k, v in pool.items()}, lin

    def point(self, ctx):
        rng = self.rng
        val = {v.a[0]: self.s.draw(v, ctx, rng, self.pool.get(v.id)) for v in sorted(self.vs, key=lambda v: v.a[0])}
        ufv = {}
        if self.ufs and rng.random() < 0.6:
            for u in self.ufs: ufv[u] = self.s.draw(u, ctx, rng, self.pool.get(u.id))
        if rng.random() < 0.12: self.coincide(ctx, val, ufv)
        if self.lin and rng.random() < 0.35:
            f, k = rng.choice(self.lin)
            p, c = rng.choice(f.a[1])
            def g(q): return val[q.a[0]] if q.op == 'var' else ufv.get(q)
            o = [g(q) for q, _ in f.a[1]]
            if all(x is not None for x in o):
                s = f.a[0] + sum(cc * g(q) for q, cc in f.a[1] if q is not p)
                x = (k - s) / c if f.sort == 'f' else (k - s) // c
                if f.sort == 'i': x += rng.choice((-1, 0, 1))
                lo, hi = ctx.iv(p)
                if lo <= x <= hi:
                    if p.op == 'var': val[p.a[0]] = x
                    else: ufv[p] = x
        return Point(val, ufv)

    def coincide(self, ctx, val, ufv):
        """give several inputs of one sort the same value"""
        rng = self.rng
        for srt in ('i', 'f'):
            l = [v for v in self.vs if v.sort == srt] if rng.random() < 0.7 or not ufv else [u for u in ufv if u.sort == srt]
            if len(l) < 2: continue
            l = sorted(l, key=lambda v: v.id)
            k = rng.choice((2, 2, 3, len(l)))
            l = rng.sample(l, min(k, len(l)))
            x = val[l[0].a[0]] if l[0].op == 'var' else ufv[l[0]]
            for v in l[1:]:
                lo, hi = ctx.iv(v)
                if lo <= x <= hi:
                    if v.op == 'var': val[v.a[0]] = x
                    else: ufv[v] = x

    # ---------------------------------------------------------- directed: make the path facts hold one by one
    def inputs_of(self, f):
        r = self.dep.get(f.id)
        if r is None:
            r = []
            seen = set()
            for u in walk(f, seen):
                if u.op == 'var' or u.op == 'uf': r.append(u)
            self.dep[f.id] = r
        return r

    def solve_for(self, f, target, pt, ctx, end):
        """points near pt at which the form f reaches target (root finding in one input at a time)"""
        rng = self.rng
        ins = [u for u in self.inputs_of(f) if u.sort != 'b' and (u.op == 'var' or u in pt.ufv)]
        if f in pt.ufv: ins = [f]
        rng.shuffle(ins)
        for v in ins[:3]:
            lo, hi = ctx.iv(v)
            cur = pt.ufv[v] if v in pt.ufv else pt.val[v.a[0]]
            def g(x):
                if v in pt.ufv: q = Point(pt.val, dict(pt.ufv, **{})) ; q.ufv[v] = x
                else: q = Point(dict(pt.val), pt.ufv); q.val[v.a[0]] = x
                try: r = fast.value(f, q.val, {t.id: z for t, z in q.ufv.items()})
                except (OverflowError, ZeroDivisionError, ValueError, NotImplementedError, TypeError): return None, q
                return (r - target if r is not None and r == r and type(r) is not bool else None), q
            if v.sort == 'i':
                cand = set()
                if hi - lo <= 64: cand = set(range(lo, hi + 1))
                elif hi > 1 << 20:
                    for sh in (0, 8, 16): cand |= {(cur & ~(255 << sh)) | b << sh for b in range(0, 256, 15)}
                else: cand = {lo + (hi - lo) * k // 32 for k in range(33)}
                cand |= {cur + d for d in (-2, -1, 1, 2)}
                best = sorted((abs(d), x) for x in cand if lo <= x <= hi for d in [g(x)[0]] if d is not None)[:1]
                for step in (4, 2, 1) if best else ():
                    if time.time() > end: return
                    x0 = best[0][1]
                    c2 = {x0 + s * step for s in (-3, -2, -1, 1, 2, 3)}
                    if hi > 1 << 20: c2 |= {x0 + s * (step << sh) for s in (-2, -1, 1, 2) for sh in (8, 16)}
                    best = sorted(best + [(abs(d), x) for x in c2 if lo <= x <= hi for d in [g(x)[0]] if d is not None])[:1]
                if best: yield g(best[0][1])[1]
                continue
            L, H = max(lo, -1e9), min(hi, 1e9)
            if H - L > 1e5: L, H = max(L, min(-1000., cur - 100)), min(H, max(1000., cur + 100))
            xs = sorted({L, H, min(max(cur, L), H)} | {L + (H - L) * k / 16 for k in range(1, 16)} | {min(max(cur + s * 10 ** e, L), H) for s in (-1, 1) for e in (-6, -3, -1, 0)})
            gs = [(x,) + g(x) for x in xs]
            gs = [t for t in gs if t[1] is not None]
            br = [(a, b) for a, b in zip(gs, gs[1:]) if (a[1] <= 0) != (b[1] <= 0) or a[1] == 0 or b[1] == 0]
            rng.shuffle(br)
            for a, b in br[:2]:
                for _ in range(70):
                    if a[1] == 0 or b[1] == 0 or time.time() > end: break
                    m = (a[0] + b[0]) / 2
                    if m == a[0] or m == b[0]: break
                    t = (m,) + g(m)
                    if t[1] is None: break
                    if (t[1] <= 0) == (a[1] <= 0): a = t
                    else: b = t
                for t in sorted((a, b), key=lambda t: abs(t[1])): yield t[2]
            if not br and gs: yield min(gs, key=lambda t: abs(t[1]))[2]

    def satisfy(self, ctx, end, tries=6, rounds=10):
        """points satisfying every path fact of ctx"""
        rng = self.rng
        for _ in range(tries):
            if time.time() > end: return
            pt = self.point(ctx)
            done = False
            for _ in range(rounds):
                if time.time() > end: return
                m = pt.memo()
                bad = []
                try:
                    if not pt.consistent(m): break
                    for c, v in ctx.hist:
                        r = evaluate(c, pt.val, m)[0]
                        if r is not None and bool(r) != v: bad.append((c, v))    # too close to tell: either way
                except (OverflowError, ZeroDivisionError, ValueError): break
                if not bad: done = True; break
                # pinned forms first, then any
                bad = [(c, v) for c, v in bad if c.op in ('lt', 'gt', 'eq')] or [x for c, v in bad for x in sub_atoms(c)]
                if not bad: break
                c, v = rng.choice(bad)
                f, k = c.a
                lo, hi = ctx.iv(f)
                ints = f.sort == 'i'
                if lo == hi: tg = lo
                elif not ints and lo > -1e12 and hi < 1e12: tg = lo + (hi - lo) * rng.choice((0.5, rng.random(), 1e-6, 1 - 1e-6))
                elif ints and -(1 << 40) < lo <= hi < 1 << 40: tg = rng.randint(lo, hi)
                else:
                    up = (c.op == 'gt') == v if c.op != 'eq' else rng.random() < 0.5
                    d = 10 ** rng.uniform(-6, 2)
                    if ints: d = int(d)
                    if c.op == 'eq' and v: d = 0
                    tg = k + d if up else k - d
                nxt, few = None, None
                greedy = rng.random() < 0.7
                for q in self.solve_for(f, tg, pt, ctx, end):
                    mm = q.memo()
                    try:
                        r = evaluate(c, q.val, mm)[0]
                        if r is None or bool(r) != v: continue
                        if not greedy: nxt = q; break
                        k = 0
                        for c2, v2 in ctx.hist:
                            r = evaluate(c2, q.val, mm)[0]
                            if r is not None and bool(r) != v2: k += 1
                    except (OverflowError, ZeroDivisionError, ValueError): continue
                    if few is None or k < few: nxt, few = q, k
                    if k == 0: break
                if nxt is None: pt = self.perturb(pt, ctx, 10 ** rng.uniform(-4, -0.7))
                else: pt = nxt
            if done: yield pt

    def perturb(self, pt, ctx, scale):
        rng = self.rng
        val = dict(pt.val); ufv = dict(pt.ufv)
        def mv(t, x):
            lo, hi = ctx.iv(t)
            if t.sort == 'b': return not x
            if t.sort == 'i':
                if hi > 1 << 20 and rng.random() < 0.8:
                    sh = rng.choice((0, 8, 16))
                    b = (x >> sh) & 255
                    b = min(255, max(0, b + int(round(rng.gauss(0, 1 + 128 * scale)))))
                    y = (x & ~(255 << sh)) | b << sh
                else: y = x + int(round(rng.gauss(0, 1 + (min(hi, 1 << 31) - max(lo, -(1 << 31))) * scale)))
            else:
                w = min(hi, 400.) - max(lo, -400.)
                y = x + rng.gauss(0, max(w, 1.) * scale)
            return min(max(y, lo), hi)
        ks = list(self.vs)
        rng.shuffle(ks)
        for v in ks[:rng.choice((1, 1, 2, len(ks))) or 1]:
            val[v.a[0]] = mv(v, val[v.a[0]])
        for u in list(ufv):
            if rng.random() < 0.4: ufv[u] = mv(u, ufv[u])
        return Point(val, ufv)

    def seek(self, atom, want, end, tries=160):
        """a point satisfying the path facts with atom == want, by descending the distance to its boundary"""
        best = None
        for i in range(tries):
            if time.time() > end: break
            if best is None or i < tries // 3: pt = self.point(self.ctx)
            else: pt = self.perturb(best[1], self.ctx, 10 ** self.rng.uniform(-6, -0.7))
            m = pt.memo()
            try:
                if not pt.consistent(m): continue
                if not holds(self.ctx, pt.val, m): continue
                r = evaluate(atom, pt.val, m)[0]
                if r is not None and bool(r) == want: yield pt; continue
                if atom.op in ('lt', 'gt', 'eq'):
                    f = evaluate(atom.a[0], pt.val, m)[0]
                    if f is None or f != f: continue
                    d = abs(f - atom.a[1])
                    if best is None or d < best[0]: best = (d, pt)
            except (OverflowError, ZeroDivisionError, ValueError): pass


def feasible_witness(ctx, seed=1, n=400, secs=10.0):
    """a valuation satisfying every path fact, or None"""
    s = Search([], ctx, seed)
    end = time.time() + secs
    best = None
    for i in range(n):
        if best is None or i < n // 3: pt = s.point(ctx)
        else: pt = s.perturb(best[1], ctx, 10 ** s.rng.uniform(-6, -0.7))
        m = pt.memo()
        try:
            if not pt.consistent(m): continue
            bad = 0.0
            for c, v in ctx.hist:
                r = evaluate(c, pt.val, m)[0]
                if r is None: bad = INF; break
                if bool(r) != v:
                    bad += 1
                    if c.op in ('lt', 'gt', 'eq'):
                        f = evaluate(c.a[0], pt.val, m)[0]
                        bad += min(1e6, abs(f - c.a[1])) if f is not None and f == f else 1e6
            if bad == 0: return pt.show()
            if best is None or bad < best[0]: best = (bad, pt)
        except (OverflowError, ZeroDivisionError, KeyError, ValueError): pass
        if time.time() > end: break
    return None


def sub_atoms(c):
    return [(a, v) for a in atoms(c) if a.op in ('lt', 'gt', 'eq') for v in (True, False)]


def decide_equal(x, y, ctx, seed=1, n=300, secs=20.0, rtol=1e-9, nodes=1500, hints=(), harvest=None):
    """'proved' | ('refuted', valuation, code value, expected value) | ('agree', number of valuations compared)

    harvest: list to which further valuations like the refuting one are added; hints: valuations to start from"""
    if x is y: return 'proved'
    hc = 0
    if hints:
        s = Search([x, y], ctx, seed)
        stop = time.time() + secs
        for i in range(12 * len(hints)):
            if time.time() > stop: break
            h = hints[-1 - i % len(hints)]
            pt = s.point(ctx)
            pt.val.update((k, v) for k, v in h.items() if k in pt.val)
            if i >= len(hints): pt = s.perturb(pt, ctx, 10 ** s.rng.uniform(-6, -1.5))
            r = test_point(x, y, ctx, pt, rtol)
            if r is None: continue
            hc += 1
            if r is not True: return ('refuted', pt.show()) + r
    found = []
    cnt = [0]
    S = []
    leaves = []
    end = time.time() + secs / 2
    def leaf(c):
        if not S: S.append(Search([x, y], ctx, seed))
        k = 0
        for pt in S[0].satisfy(c, min(end, time.time() + 2.0)):
            r = test_point(x, y, ctx, pt, rtol)
            if r is None: continue
            cnt[0] += 1
            if r is not True:
                found.append((pt.show(),) + r)
                if harvest is not None: more(S[0].satisfy(c, time.time() + 5.0, tries=4000))
                return True
            k += 1
            if k >= 3: break
        leaves.append(c)
        return time.time() > end
    def more(pts):
        bins = {}
        t0 = time.time()
        def near():
            for pt in pts:
                yield pt
                for _ in range(8): yield S[0].perturb(pt, ctx, 10 ** S[0].rng.uniform(-5, -2))
        for pt in near() if S else pts:
            if len(harvest) >= 300: break
            ks = [(k, int(v)) for k, v in pt.val.items() if type(v) is float and abs(v) < 1e300]
            if (len(harvest) > 20 or time.time() < t0 + 3.0) and any(bins.get(k, 0) > 20 for k in ks): continue    # spread them out
            r = test_point(x, y, ctx, pt, rtol)
            if r is not None and r is not True:
                harvest.append(dict(pt.val))
                for k in ks: bins[k] = bins.get(k, 0) + 1
    if prove(x, y, ctx, Budget(nodes, secs / 2, leaf)) is True: return 'proved'
    if found: return ('refuted',) + found[0]
    # the parts of the domain on which equality was not proved, again with what time is left
    again = leaves[:200]
    leaves = []
    while again and time.time() < end:
        for c in again:
            if leaf(c) or time.time() > end: break
        leaves = []
        if found: return ('refuted',) + found[0]
    w, a, b = refute(x, y, ctx, seed, n, secs, rtol)
    if w is not None:
        if harvest is not None:
            s = S[0] if S else Search([x, y], ctx, seed)
            harvest.append({k: v for k, v in w.items()})
            def gen():
                end = time.time() + 5.0
                base = Point({v.a[0]: w[v.a[0]] for v in s.vs})
                while time.time() < end: yield s.perturb(base, ctx, 10 ** s.rng.uniform(-4, -0.7)) if s.rng.random() < 0.6 else s.point(ctx)
            more(gen())
        return ('refuted', w, a, b)
    return ('agree', cnt[0] + a + hc)


def test_point(x, y, ctx, pt, rtol):
    """None: not a valuation of the domain; True: equal values; (v, w): different values"""
    m = pt.memo()
    try:
        if not pt.consistent(m) or not holds(ctx, pt.val, m): return None
        (v, e), (w, d) = evaluate(x, pt.val, m), evaluate(y, pt.val, m)
    except (OverflowError, ZeroDivisionError, ValueError): return None
    if v is None or w is None: return None
    return (v, w) if not close(v, e, w, d, rtol) else True


class Quick:
    """fast comparison of two graphs on many valuations; disagreements are only candidates"""
    def __init__(self, x, y, ctx, s):
        by = {}
        for t in s.ufs: by.setdefault((t.a[0], len(t.a)), []).append(t)
        self.groups = [l for l in by.values() if len(l) > 1]
        self.want = [v for _, v in ctx.hist]
        args = [a for l in self.groups for t in l for a in t.a[1:]]
        at = [a for z in (x, y) if type(z) is T for a in atoms(z) if a.op in ('lt', 'gt', 'eq') and not (type(a.a[1]) is float and (a.a[1] != a.a[1] or abs(a.a[1]) == INF))]
        self.at = list({a.id: a for a in at}.values())[:600]
        self.f = fast.compiled([x, y] + [c for c, _ in ctx.hist] + args + [a.a[0] for a in self.at])
        self.k = 2 + len(self.want)
        self.g = self.k + len(args)

    def equal(self, pt, rtol):
        """None: outside the domain; True / False"""
        U = {t.id: v for t, v in pt.ufv.items()}
        for _ in range(4):
            r = self.f(pt.val, U)
            if not U or not self.groups: break
            i = self.k
            ch = False
            for l in self.groups:
                seen = {}
                for t in l:
                    n = len(t.a) - 1
                    k = tuple(_sig(v) for v in r[i:i + n]); i += n
                    if t not in pt.ufv: continue
                    if k not in seen: seen[k] = pt.ufv[t]
                    elif seen[k] != pt.ufv[t]: pt.ufv[t] = U[t.id] = seen[k]; ch = True
            if not ch: break
        else: return None
        self.last = r
        for v, w in zip(r[2:self.k], self.want):
            if bool(v) != w: return None
        a, b = r[0], r[1]
        if a == b: return True
        if type(a) is float or type(b) is float:
            if a != a or b != b: return a != a and b != b
            return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b)) if abs(a) != INF and abs(b) != INF else False
        return False


def climb(qk, s, ctx, end, prefer, rtol):
    """valuations at which the graphs seem to differ, sought where several gates are close to switching at once"""
    rng = s.rng
    at = qk.at
    pool, scale = [], []
    def run(pt):
        try: e = qk.equal(pt, rtol)
        except (OverflowError, ZeroDivisionError, ValueError, TypeError): return None, None
        return e, qk.last[qk.g:]
    for _ in range(60):
        if time.time() > end: return
        pt = s.point(ctx)
        e, d = run(pt)
        if d is None or e is None: continue
        yield pt, e
        pool.append((pt, d))
    if not pool or not at: return
    for i, a in enumerate(at):
        l = sorted(abs(d[i] - a.a[1]) for _, d in pool if d[i] == d[i])
        scale.append(max(l[len(l) // 2], 1e-9) if l else 1.0)
    pref = [i for i, a in enumerate(at) if a.id in prefer]
    def dist(d, ch):
        t = 0.0
        for i, k in ch:
            x = abs(d[i] - k)
            if x != x: return INF
            t += x / scale[i]
        return t
    while time.time() < end:
        ch = []
        m = rng.choice((1, 2, 2, 3))
        for j in range(m):
            i = rng.choice(pref) if pref and rng.random() < 0.6 else rng.randrange(len(at))
            k = at[i].a[1]
            if rng.random() < 0.4: k += rng.choice((-1, 1)) * scale[i] * 10 ** rng.uniform(-6, -0.5) if at[i].a[0].sort == 'f' else rng.choice((-1, 1))
            ch.append((i, k))
        cand = rng.sample(pool, min(6, len(pool)))
        pt, d = min(cand, key=lambda q: dist(q[1], ch))
        best = dist(d, ch)
        w = 0.1
        fail = 0
        for _ in range(60):
            if time.time() > end or best < 1e-8: break
            q = s.perturb(pt, ctx, w * 10 ** rng.uniform(-1.5, 0))
            e, dq = run(q)
            if dq is None or e is None: fail += 1
            else:
                yield q, e
                c = dist(dq, ch)
                if c < best: pt, d, best, fail = q, dq, c, 0
                else: fail += 1
            if fail > 5: w *= 0.4; fail = 0
        if len(pool) < 400: pool.append((pt, d))
        else: pool[rng.randrange(len(pool))] = (pt, d)


def refute(x, y, ctx, seed=1, n=300, secs=20.0, rtol=1e-9):
    """(valuation, code value, expected value) or (None, number of valuations compared, None)"""
    end = time.time() + secs
    s = Search([x, y], ctx, seed)
    cnt = 0
    def test(pt): return test_point(x, y, ctx, pt, rtol)
    qk = Quick(x, y, ctx, s)
    if qk.f is not None:
        mid = time.time() + secs * 0.2
        slow = 0.0
        for i in range(200 * n):
            t0 = time.time()
            if t0 > mid or slow > secs * 0.2: break
            pt = s.point(ctx)
            try: e = qk.equal(pt, rtol)
            except (OverflowError, ZeroDivisionError, ValueError, TypeError): continue
            if e is None: continue
            cnt += 1
            if e is True: continue
            r = test(pt)
            slow += time.time() - t0
            if r is not None and r is not True: return pt.show(), r[0], r[1]
        ids = {a.id for a in qk.at}
        both = ({a.id for a in atoms(x)} if type(x) is T else set()) & ({a.id for a in atoms(y)} if type(y) is T else set())
        slow = 0.0
        for pt, e in climb(qk, s, ctx, time.time() + secs * 0.3, ids - both, rtol):
            cnt += 1
            if e is True: continue
            t0 = time.time()
            r = test(pt)
            slow += time.time() - t0
            if r is not None and r is not True: return pt.show(), r[0], r[1]
            if slow > secs * 0.15: break
    for i in range(n if qk.f is None else n // 4):
        if time.time() > end: return None, cnt, None
        pt = s.point(ctx)
        r = test(pt)
        if r is None: continue
        cnt += 1
        if r is not True: return pt.show(), r[0], r[1]
    # gates present only on one side delimit behaviour the other does not have
    ax = {a.id: a for a in atoms(x)} if type(x) is T else {}
    ay = {a.id: a for a in atoms(y)} if type(y) is T else {}
    extra = [a for i, a in ax.items() if i not in ay] + [a for i, a in ay.items() if i not in ax]
    # the values of a form between which the two sides switch at different places
    forms = {}
    for a in list(ax.values()) + list(ay.values()):
        if a.op in ('lt', 'gt', 'eq'): forms.setdefault(a.a[0].id, (a.a[0], set()))[1].add(a.a[1])
    one = {a.a[0].id for a in extra if a.op in ('lt', 'gt', 'eq')}
    targets = []
    for fid in one:
        f, ks = forms[fid]
        ks = sorted(k for k in ks if k == k and abs(k) < 1e300)
        if not ks: continue
        lo, hi = ctx.iv(f)
        t = list(ks)
        if f.sort == 'f': t += [(a + b) / 2 for a, b in zip(ks, ks[1:])]
        else: t += [(a + b) // 2 for a, b in zip(ks, ks[1:])] + [k + d for k in ks for d in (-1, 1)]
        targets += [(f, k) for k in t if lo <= k <= hi]
    s.rng.shuffle(targets)
    for rnd in range(3):
        for f, k in targets[:80]:
            if time.time() > end - secs / 3: break
            pt = s.point(ctx)
            for q in s.solve_for(f, k, pt, ctx, end):
                r = test(q)
                if r is None: continue
                cnt += 1
                if r is not True: return q.show(), r[0], r[1]
    for a in extra[:120]:
        for v in (True, False):
            try: c = ctx.assume(a, v)
            except Infeasible: continue
            k = 0
            for i in range(max(16, n // 8)):
                if time.time() > end: return None, cnt, None
                pt = s.point(c)
                r = test(pt)
                if r is None: continue
                cnt += 1
                if r is not True: return pt.show(), r[0], r[1]
                if evaluate(a, pt.val, pt.memo())[0] == v: k += 1
                if k >= 12: break
            if k == 0:
                for pt in s.seek(a, v, end):
                    r = test(pt)
                    if r is None: continue
                    cnt += 1
                    if r is not True: return pt.show(), r[0], r[1]
                    k += 1
                    if k >= 12: break
    return None, cnt, None
