"""Quantizers: exact counting, Wu's boxes, k-means, Celebi."""
import random
from frame import *
from env import *
from spec import *
from props_utils import EQ, argb
from props_hct import Opt
from props_score import forked

N = 35937
def ix(r, g, b): return r * 1089 + g * 33 + b


class PyWu:
    """Wu's algorithm from its definition, on known pixels"""
    def __init__(self, counts):
        self.h = [{}, {}, {}, {}, {}]
        for p, n in counts.items():
            r, g, b = p >> 16 & 255, p >> 8 & 255, p & 255
            k = ((r >> 3) + 1, (g >> 3) + 1, (b >> 3) + 1)
            for a, v in zip(self.h, (n, r * n, g * n, b * n, n * (r * r + g * g + b * b))): a[k] = a.get(k, 0) + v
        self.m = [prefix(a) for a in self.h]

    def vol(self, c, m):
        r0, r1, g0, g1, b0, b1 = c
        return sum(s * m[ix(r, g, b)] for s, (r, g, b) in corners(c))

    def maximize(self, c, d, first, last, whole):
        best, cut = 0.0, -1
        for i in range(first, last):
            q = list(c); q[2 * d + 1] = i
            half = [self.vol(q, m) for m in self.m[:4]]
            if half[0] == 0: continue
            rest = [w - h for w, h in zip(whole, half)]
            if rest[0] == 0: continue
            t = sum(float(x) * float(x) for x in half[1:]) / half[0]
            t = t + sum(float(x) * float(x) for x in rest[1:]) / rest[0]
            if t > best: best, cut = t, i
        return cut, best

    def variance(self, c):
        d = [self.vol(c, m) for m in self.m[1:4]]
        return float(self.vol(c, self.m[4])) - sum(float(x) * float(x) for x in d) / self.vol(c, self.m[0])

    def cut(self, c):
        whole = [self.vol(c, m) for m in self.m[:4]]
        res = [self.maximize(c, d, c[2 * d] + 1, c[2 * d + 1], whole) for d in range(3)]
        return cut_boxes(c, res)

    def boxes(self, n):
        cubes = [[0, 32, 0, 32, 0, 32]]
        def cut(one):
            r = self.cut(cubes[one])
            if r is None: return None
            cubes[one] = r[0]; cubes.append(r[1])
            return [volume3(x) for x in r]
        cnt, _ = box_loop(lambda q: q, n, cut, lambda k: self.variance(cubes[k]))
        return cubes[:cnt] + [None] * 0, cnt

    def result(self, n):
        cubes, cnt = self.boxes(n)
        out = []
        for c in cubes[:cnt]:
            w = self.vol(c, self.m[0])
            if w > 0: out.append(0xFF000000 | sum(int(math.floor(self.vol(c, m) / w + 0.5)) << s for m, s in zip(self.m[1:4], (16, 8, 0))))
        return out


def volume3(c): return (c[1] - c[0]) * (c[3] - c[2]) * (c[5] - c[4])


def corners(c):
    r0, r1, g0, g1, b0, b1 = c
    return [(sr * sg * sb, (r, g, b)) for sr, r in ((1, r1), (-1, r0)) for sg, g in ((1, g1), (-1, g0)) for sb, b in ((1, b1), (-1, b0))]


def prefix(h):
    m = [0] * N
    for r in range(1, 33):
        area = [0] * 33
        for g in range(1, 33):
            line = 0
            for b in range(1, 33):
                v = h.get((r, g, b), 0)
                if type(v) is not int or v or type(line) is not int or line: line = line + v if type(v) is int and type(line) is int else iadd(line, v)
                a = area[b]
                area[b] = a + line if type(a) is int and type(line) is int else iadd(a, line)
                q = m[ix(r - 1, g, b)]
                m[ix(r, g, b)] = q + area[b] if type(q) is int and type(area[b]) is int else iadd(q, area[b])
    return m


def cut_boxes(c, res):
    """the two boxes after a cut, from the best cut of each direction"""
    (lr, mr), (lg, mg), (lb, mb) = res
    if mr >= mg and mr >= mb:
        d, loc = 0, lr
        if lr < 0: return None
    elif mg >= mr and mg >= mb: d, loc = 1, lg
    else: d, loc = 2, lb
    one, two = list(c), list(c)
    one[2 * d + 1] = loc; two[2 * d] = loc
    return one, two


def box_loop(dec, n, cut, variance):
    """number of boxes and the cuts tried: always the box of largest variance (the earliest on ties), until there are n or none has any"""
    var = {0: 0.0}
    trace = []
    nxt, i, made = 0, 1, n
    while i < n:
        trace.append((nxt, i))
        vols = cut(nxt) if not callable(getattr(cut, 'sym', None)) else cut.sym(dec, nxt, i)
        if vols is not None:
            var[nxt] = variance(nxt) if vols[0] > 1 else 0.0
            var[i] = variance(i) if vols[1] > 1 else 0.0
        else:
            var[nxt] = 0.0
            i -= 1
        nxt, top = 0, var[0]
        for j in range(1, i + 1):
            if dec(gt(var[j], top)): top, nxt = var[j], j
        if dec(le(top, 0.0)): made = i + 1; break
        i += 1
    return made, trace


BOXF = ('r0', 'r1', 'g0', 'g1', 'b0', 'b1')
WF = ('weights', 'moments_r', 'moments_g', 'moments_b', 'moments')


def box(p, c, vol=0): return struct(p, 'quantizer_wu::Box', dict(zip(BOXF, c), vol=vol))


def wu(p, arr, cubes=()): return struct(p, 'QuantizerWu', dict(zip(WF, arr), cubes=Vec(cubes)))


def sumsq(v):
    r = 0.0
    for x in v: r = fadd(r, fmul(i2f(x), i2f(x)))
    return r


def P26(c):
    c.rule(EQ)
    c.rule('Map counts opaque pixels exactly; Wu keeps a 33^3 table of cumulative moments, cuts the box of largest variance where the between-halves variance is largest, and returns the rounded mean of each box')
    p = c.p
    # ---------------------------------------------------------------- exact counting
    for n in (0, 1, 2, 3):
        px = [argb('pixel%d' % i) for i in range(n)]
        key = argb('key')
        mk = lambda I, st, px=px: [I.new(st, Vec(px)), 7]
        opq = [eq(chan(x, 24), 255) for x in px]
        cnt = 0
        for x, o in zip(px, opq): cnt = iadd(cnt, ite(b_and(o, eq(x, key)), 1, 0))
        c.par(c.expect, 'map of %d pixels: count of any colour' % n, 'qz_map_count', (lambda mk: lambda I, st: mk(I, st) + [key])(mk), ite(eq(cnt, 0), -1, cnt), secs=10.0)
        dist = 0
        for i, (x, o) in enumerate(zip(px, opq)):
            dist = iadd(dist, ite(b_and(o, *[b_not(eq(x, y)) for y in px[:i]]), 1, 0))
        c.par(c.expect, 'map of %d pixels: number of colours' % n, 'qz_map_len', mk, dist, secs=10.0)
    # ---------------------------------------------------------------- table index
    r, g, b = (ivar(n, 0, 32) for n in 'rgb')
    c.expect('table index', 'wu_get_index', [r, g, b], iadd(iadd(imul(r, 1089), imul(g, 33)), b))
    # ---------------------------------------------------------------- histogram
    def cells(*ks):
        return [iadd(0xFF000000, iadd(imul(ivar('R%d.%d' % (j, k[0]), 8 * k[0], 8 * k[0] + 7), 65536), iadd(imul(ivar('G%d.%d' % (j, k[1]), 8 * k[1], 8 * k[1] + 7), 256), ivar('B%d.%d' % (j, k[2]), 8 * k[2], 8 * k[2] + 7)))) for j, k in enumerate(ks)]
    def hist(px, cnt):
        out = [{} for _ in range(5)]
        for x, n in zip(px, cnt):
            ch = [chan(x, s) for s in (16, 8, 0)]
            k = ix(*[shr(v, 3) + 1 for v in ch])
            sq = iadd(iadd(imul(ch[0], ch[0]), imul(ch[1], ch[1])), imul(ch[2], ch[2]))
            for a, v in zip(out, (n, imul(n, ch[0]), imul(n, ch[1]), imul(n, ch[2]))): a[k] = iadd(a.get(k, 0), v)
            v = i2f(imul(n, sq))
            out[4][k] = fadd(out[4][k], v) if k in out[4] else v
        return out
    cv = [ivar('count%d' % i, 1, 1 << 40) for i in range(3)]
    def nonzero(I, st, q):
        res = []
        for nm in WF:
            v = field(p, q, nm)
            d = {i: x for i, x in enumerate(v.f) if type(x) is T or x != 0}
            res.append((len(v.f), d))
        return res
    def check_tables(name, where, got, want, ctx, J, st):
        for nm, (ln, d), w in zip(WF, got, want):
            w = {k: v for k, v in w.items() if type(v) is T or v != 0}
            if ln != N: return c.violation(name, where, '%s has %d entries, expected %d' % (nm, ln, N))
            ks = sorted(set(d) | set(w))
            diff = [k for k in ks if d.get(k, 0) is not w.get(k, 0) and not (type(d.get(k, 0)) is not T and d.get(k, 0) == w.get(k, 0))]
            z = 0.0 if nm == 'moments' else 0
            for k in diff[:30]:
                if not one(name + ': %s[%d]' % (nm, k), where, d.get(k, z), w.get(k, z), ctx): return
        c.proved(name, '%d entries' % (5 * N))
    def one(name, where, a, b, ctx):
        if type(a) is int and type(b) is not int and sort_of(b) == 'f': a = float(a)
        r = decide_equal(a, b, ctx, c.seed, 100, 6.0, nodes=300)
        if r[0] == 'refuted':
            c.violation(name, where, '%s, expected %s' % (fmtv(r[2]), fmtv(r[3])), r[1]); return False
        return True
    def histogram(name, px, cnt):
        def go():
            I = c.interp({}, budget=10 ** 8); st = State()
            q = I.new(st, wu(p, [Vec([5]), Vec([6, 7]), Vec(()), Vec(()), Vec(())]))       # whatever was there before
            v, s = I.run_root('wu_histogram', [q, Map(list(zip(px, cnt)))], st)
            c.visited |= I.visited; c.asserts += I.asserts
            c.check_panics(name, 'wu_histogram', I)
            if v is None: return c.violation(name, c.loc('wu_histogram'), 'never returns normally')
            check_tables(name, c.loc('wu_histogram'), nonzero(I, st, I.load(st, q)), hist(px, cnt), Ctx(), I, st)
        c.par(c.guard, name, go)
    histogram('histogram of no colours', [], [])
    histogram('histogram of colours in different cells', cells((0, 0, 0), (31, 31, 31), (3, 17, 9)), cv)
    histogram('histogram of colours in one cell', [iadd(x, 0) for x in cells((5, 6, 7), (5, 6, 7))], cv[:2])
    # ---------------------------------------------------------------- cumulative moments
    def moments():
        name = 'cumulative moments'
        hs = []
        for j in range(5):
            f = (lambda n: fvar(n, 0, 1e9)) if j == 4 else (lambda n: ivar(n, 0, 1 << 40))
            hs.append({k: f('h%d.%d' % (j, i)) for i, k in enumerate(((1, 1, 1), (32, 32, 32), (4, 18, 10), (4, 18, 11), (4, 3, 30), (20, 5, 1)))})
        arr = []
        for j, h in enumerate(hs):
            z = [0.0 if j == 4 else 0] * N
            for k, v in h.items(): z[ix(*k)] = v
            arr.append(Vec(z))
        I = c.interp({}, budget=10 ** 8); st = State()
        q = I.new(st, wu(p, arr))
        v, s = I.run_root('wu_moments', [q], st)
        c.visited |= I.visited; c.asserts += I.asserts
        c.check_panics(name, 'wu_moments', I)
        if v is None: return c.violation(name, c.loc('wu_moments'), 'never returns normally')
        want = []
        for j, h in enumerate(hs):
            w = {}
            ks = sorted(h)
            memo = {}
            for r_ in range(1, 33):
                for g_ in range(1, 33):
                    for b_ in range(1, 33):
                        inn = tuple(k for k in ks if k[0] <= r_ and k[1] <= g_ and k[2] <= b_)
                        if inn not in memo:
                            t = 0.0 if j == 4 else 0
                            for k in inn: t = (fadd if j == 4 else iadd)(t, h[k])
                            memo[inn] = t
                        w[ix(r_, g_, b_)] = memo[inn]
            want.append(w)
        check_tables(name, c.loc('wu_moments'), nonzero(I, st, I.load(st, q)), want, Ctx(), I, st)
    c.par(c.guard, 'cumulative moments', moments)
    # ---------------------------------------------------------------- sums over a box
    BX = [(3, 17, 5, 20, 0, 32), (0, 1, 0, 32, 31, 32), (0, 32, 0, 32, 0, 32), (9, 9, 2, 4, 6, 8)]
    def table(tag, lo=0, hi=1 << 40, fl=False):
        return lambda k: (fvar if fl else ivar)('%s[%d]' % (tag, k), lo, hi)
    def lazy(tag, keys, fl=False):
        z = [0.0 if fl else 0] * N
        f = table(tag, fl=fl)
        for k in keys: z[k] = f(k)
        return z
    def vsum(c_, m):
        t = 0.0 if type(m[0]) is float else 0
        for s, k in corners(c_):
            x = m[ix(*k)]
            t = (fadd if sort_of(x) == 'f' else iadd)(t, x) if s > 0 else (fsub if sort_of(x) == 'f' else isub)(t, x)
        return t
    def dirv(d): return enumv(p, 'quantizer_wu::Direction', ('Red', 'Green', 'Blue')[d])
    for bx in BX:
        keys = {ix(*k) for _, k in corners(bx)}
        m = lazy('m', keys)
        c.expect('sum over box %s' % (bx,), 'wu_volume', lambda I, st: [box(p, bx), Vec(m)], vsum(bx, m))
        for d in range(3):
            low = list(bx); low[2 * d + 1] = low[2 * d]
            bot = 0
            for s, k in corners(bx):
                if k[d] == bx[2 * d] and s != 0: pass
            # the part of the inclusion-exclusion sum on the lower face
            for sg, k in corners(bx[:2 * d] + (0, 1) + bx[2 * d + 2:]):
                if k[d] == 0:
                    q = list(k); q[d] = bx[2 * d]
                    x = m[ix(*q)]
                    bot = iadd(bot, x) if sg > 0 else isub(bot, x)
            c.expect('lower face of box %s, direction %d' % (bx, d), 'wu_bottom', lambda I, st: [box(p, bx), dirv(d), Vec(m)], bot)
            pos = (bx[2 * d] + bx[2 * d + 1]) // 2
            ks2 = []
            for sg, k in corners(bx[:2 * d] + (0, 1) + bx[2 * d + 2:]):
                if k[d] == 1:
                    q = list(k); q[d] = pos; ks2.append((sg, ix(*q)))
            m2 = lazy('m', {k for _, k in ks2})
            top = 0
            for sg, k in ks2: top = iadd(top, m2[k]) if sg > 0 else isub(top, m2[k])
            c.expect('upper face of box %s at %d, direction %d' % (bx, pos, d), 'wu_top', lambda I, st: [box(p, bx), dirv(d), pos, Vec(m2)], top)
    # ---------------------------------------------------------------- variance
    def tables(bx, extra=()):
        keys = {ix(*k) for _, k in corners(bx)} | set(extra)
        return [lazy('w', keys), lazy('r', keys), lazy('g', keys), lazy('b', keys), lazy('q', keys, True)]
    def nopanic(I): I.panics = [x for x in I.panics if 'Overflow' not in x[2] or True]
    for bx in BX[:3]:
        t = tables(bx)
        want = fsub(vsum(bx, t[4]), fdiv(sumsq([vsum(bx, x) for x in t[1:4]]), i2f(vsum(bx, t[0]))))
        c.expect('variance of box %s' % (bx,), 'wu_variance', lambda I, st: [I.new(st, wu(p, [Vec(x) for x in t])), box(p, bx)], want)
    # ---------------------------------------------------------------- best cut along a direction
    def maximize(d, span):
        bx = [3, 17, 5, 20, 1, 32]
        bx[2 * d], bx[2 * d + 1] = 4, 4 + span
        bx = tuple(bx)
        first, last = 5, 4 + span
        keys = set()
        for i in range(4, last + 1):
            q = list(bx); q[2 * d + 1] = i
            keys |= {ix(*k) for _, k in corners(q)}
        t = tables(bx, keys)
        whole = [ivar('whole' + n, 0, 1 << 41) for n in 'wrgb']
        def spec(dec):
            best, cut = 0.0, -1
            for i in range(first, last):
                q = list(bx); q[2 * d + 1] = i
                half = [vsum(q, m) for m in t[:4]]
                if dec(eq(half[0], 0)): continue
                rest = [isub(w, h) for w, h in zip(whole, half)]
                if dec(eq(rest[0], 0)): continue
                v = fadd(fdiv(sumsq(half[1:]), i2f(half[0])), fdiv(sumsq(rest[1:]), i2f(rest[0])))
                if dec(gt(v, best)): best, cut = v, i
            return {'cut_location': cut, 'maximum': best}
        name = 'best cut, direction %d, %d places' % (d, last - first)
        def go():
            c.expect(name, 'wu_maximize', lambda I, st: [I.new(st, wu(p, [Vec(x) for x in t])), box(p, bx), dirv(d), first, last, whole[1], whole[2], whole[3], whole[0]], forked(spec, Ctx()), secs=8.0, n=60)
        c.par(c.guard, name, go)
    for d in range(3):
        for span in ((1, 2, 3) if c.tier == 'thorough' else (1, 2) if d else (1, 2, 3)): maximize(d, span)
    # ---------------------------------------------------------------- a concrete image behind the symbolic steps
    rng = random.Random(5)
    counts = {}
    for _ in range(14): counts[0xFF000000 | rng.randrange(1 << 24)] = rng.randrange(1, 9)
    for k in (0xFF102030, 0xFF112131, 0xFF122030): counts[k] = 4
    # one cell so heavy that its box, which cannot be cut, has the largest variance
    heavy = {0xFF404040: 900, 0xFF474747: 900, 0xFF80FF10: 9, 0xFF90E020: 9, 0xFF2000F0: 4}
    ref = PyWu(counts)
    arrs = [Vec(m) for m in ref.m[:4]] + [Vec([float(x) for x in ref.m[4]])]
    href = PyWu(heavy)
    harrs = [Vec(m) for m in href.m[:4]] + [Vec([float(x) for x in href.m[4]])]
    E0 = Env(c, [])
    names = {n: E0.target(n) for n in ('wu_create_boxes', 'wu_maximize', 'wu_cut', 'wu_variance', 'wu_moments')}
    if any(t is None for t in names.values()): return c.undecided('steps of the algorithm', 'entry points not found')
    # --- cut
    def cut(tag, bx, locs, bvals):
        lv = [l if l is not None else ivar('cut%d' % i, bx[2 * i] + 1, bx[2 * i + 1] - 1) for i, l in enumerate(locs)]
        mv = [b if b is not None else fvar('gain%d' % i, 0, 1e6) for i, b in enumerate(bvals)]
        sd = names['wu_maximize']['sdef']
        def hk(I, st, args, ce):
            d = I.discr(st, I.resolve(st, args[2]))
            if type(d) is not int: raise Unsupported('direction')
            return struct(p, 'MaximizeResult', {'cut_location': lv[d], 'maximum': mv[d]})
        hk.soft = True
        def spec(E, I, st, A):
            if sd not in E.h:
                res = ref.cut(list(bx))
                return [res is not None] + ([list(res[0]) + [volume3(res[0])], list(res[1]) + [volume3(res[1])]] if res else [ANY, ANY])
            def tree(dec):
                if dec(ge(mv[0], mv[1])) and dec(ge(mv[0], mv[2])):
                    d = 0
                    if dec(lt(lv[0], 0)): return [False, list(bx) + [9], ANY]
                elif dec(ge(mv[1], mv[0])) and dec(ge(mv[1], mv[2])): d = 1
                else: d = 2
                one, two = list(bx), list(bx)
                one[2 * d + 1] = lv[d]; two[2 * d] = lv[d]
                return [True] + [x + [imul(imul(isub(x[1], x[0]), isub(x[3], x[2])), isub(x[5], x[4]))] for x in (one, two)]
            return forked(tree, st.ctx)
        def mk(I, st): return [I.new(st, wu(p, arrs, [box(p, bx, 9), box(p, (0,) * 6), box(p, (0,) * 6)])), 0, 2]
        def view(I, s, v, A):
            cubes = field(p, I.load(s, A[0]), 'cubes')
            def flat(x):
                if type(x) is Choice: return merge(x.c, flat(x.a), flat(x.b))
                return Vec([field(p, x, n) for n in BOXF + ('vol',)])
            return Vec([v, flat(cubes.f[0]), flat(cubes.f[2])])
        c.par(layered, c, 'cut: ' + tag, 'wu_cut', [], mk, spec, extra={sd: hk}, view=view, secs=8.0, n=100, budget=10 ** 8)
    cut('any gains and places', (2, 20, 4, 30, 0, 32), (None, None, None), (None, None, None))
    cut('red impossible', (2, 3, 4, 30, 0, 32), (-1, None, None), (0.0, None, None))
    cut('nothing possible', (2, 3, 4, 5, 0, 1), (-1, -1, -1), (0.0, 0.0, 0.0))
    cut('equal gains', (2, 20, 4, 30, 0, 32), (None, None, None), (5.0, 5.0, 5.0))
    cut('green and blue equal', (2, 20, 4, 30, 0, 32), (None, None, None), (4.0, 5.0, 5.0))
    # --- choice of the box to cut
    def boxes(n, vols):
        sdc, sdv = names['wu_cut']['sdef'], names['wu_variance']['sdef']
        TR = ('trace', 0)
        def hc(I, st, args, ce):
            one, two = models.cint(I, st, args[1]), models.cint(I, st, args[2])
            tr = st.mem.get(TR) or Vec(())
            if type(tr) is Choice: raise NeedSplit(tr.c)
            k = len(tr.f) // 2
            ok = bvar('cutok%d' % k)
            d = st.ctx.decide(ok)
            if d is None: raise NeedSplit(ok)
            st.mem[TR] = Vec(tr.f + (one, two))
            if d:
                q = I.load(st, args[0])
                cubes = field(p, q, 'cubes')
                fs = list(cubes.f)
                fs[one] = box(p, (k, 1, 0, 1, 0, 1), vols[2 * k % len(vols)]); fs[two] = box(p, (k, 1, 1, 2, 0, 1), vols[(2 * k + 1) % len(vols)])
                nm = field_names(p, q)
                I.store(st, args[0], Agg(q.ty, q.v, tuple(Vec(fs) if a == 'cubes' else x for a, x in zip(nm, q.f))))
            return d
        def hv(I, st, args, ce):
            b_ = args[1]
            if type(b_) is Ref: b_ = I.load(st, b_)
            b_ = I.resolve(st, b_)
            if type(b_) is Choice: raise NeedSplit(b_.c)
            r0, g0 = (models.cint(I, st, field(p, b_, n)) for n in ('r0', 'g0'))
            return fvar('var%s%s' % (r0, 'ab'[g0]), -10, 1000)
        hc.soft = True; hv.soft = True
        def spec(E, I, st, A):
            if sdc not in E.h:
                cubes, made = href.boxes(n)
                return [n, made] + [x for b in cubes[:made] for x in b]
            def tree(dec):
                tags = {}
                cnt = [0]
                def sym(dec, one, two):
                    k = cnt[0]; cnt[0] += 1
                    if not dec(bvar('cutok%d' % k)): return None
                    tags[one] = '%da' % k; tags[two] = '%db' % k
                    return vols[2 * k % len(vols)], vols[(2 * k + 1) % len(vols)]
                f = lambda one: None
                f.sym = sym
                made, trace = box_loop(dec, n, f, lambda j: fvar('var%s' % tags[j], -10, 1000))
                return [n, made] + ([x for t in trace for x in t] if n > 1 else [0, 32] * 3)
            return forked(tree, st.ctx)
        def view(I, s, v, A):
            cubes = field(p, I.load(s, A[0]), 'cubes')
            def flat(x, y):
                if type(x) is Choice: return merge(x.c, flat(x.a, y), flat(x.b, y))
                if type(y) is Choice: return merge(y.c, flat(x, y.a), flat(x, y.b))
                made = I.resolve(s, field(p, x, 'result_count'))
                if y is None: y = Vec([field(p, b, q) for b in cubes.f[:made] for q in BOXF] if type(made) is int else ())
                return Vec((field(p, x, 'requested_count'), made) + y.f)
            return flat(v, s.mem.get(TR))
        def mk(I, st): return [I.new(st, wu(p, harrs)), n]
        c.par(layered, c, 'boxes for %d colours, volumes %s' % (n, vols), 'wu_create_boxes', [], mk, spec, extra={sdc: hc, sdv: hv}, view=view, secs=8.0, n=100, budget=10 ** 8, nojoin={names['wu_create_boxes']['sdef']})
    for v in ((8,), (1, 1), (8, 1), (1, 8)):
        for n in (1, 2, 3): boxes(n, v)
    boxes(4, (8,)); boxes(4, (8, 1, 1, 8)); boxes(4, (8, 8, 1, 8))
    if c.tier == 'thorough': boxes(5, (8,))
    # --- mean colour of each box
    def means(n, bxs):
        keys = set()
        for bx in bxs: keys |= {ix(*k) for _, k in corners(bx)}
        # box sums as free unknowns: the last corner of each box carries it
        t = [[0] * N for _ in range(4)]
        for j, bx in enumerate(bxs):
            w = ivar('weight%d' % j, 0, 1 << 30)
            for a, nm in enumerate(('w', 'r', 'g', 'b')):
                t[a][ix(bx[1], bx[3], bx[5])] = w if a == 0 else ivar('%s%d' % (nm, j), 0, 255 << 30)
        asm = [le(t[a][ix(bx[1], bx[3], bx[5])], imul(255, t[0][ix(bx[1], bx[3], bx[5])])) for bx in bxs[:n] for a in (1, 2, 3)]
        def spec(dec):
            out = []
            for bx in bxs[:n]:
                k = ix(bx[1], bx[3], bx[5])
                if not dec(gt(t[0][k], 0)): continue
                rgb = [f2i(fstep('round', fdiv(i2f(t[a][k]), i2f(t[0][k]))), -(1 << 63), (1 << 63) - 1) for a in (1, 2, 3)]
                out.append(pack(*[iand(x, 255) for x in rgb]))
            return out
        name = 'mean colours of %d of %d boxes' % (n, len(bxs))
        def go():
            ctx = Ctx()
            for a in asm: ctx = ctx.assume(a, True)
            c.expect(name, 'wu_create_result', lambda I, st: [I.new(st, wu(p, [Vec(x) for x in t] + [Vec(())], [box(p, b_, 9) for b_ in bxs])), n], forked(spec, ctx), assume=asm, secs=8.0, n=60)
        c.par(c.guard, name, go)
    D3 = [(0, 8, 0, 8, 0, 8), (9, 16, 9, 16, 9, 16), (17, 32, 17, 32, 17, 32)]
    means(0, D3[:1]); means(1, D3[:1]); means(2, D3[:2]); means(1, D3)
    # --- the whole algorithm on known images, cumulative moments taken from their definition
    def whole(tag, counts, n, extra_px=()):
        ref_ = PyWu(counts)
        want = sorted(set(ref_.result(n)))
        px = [q for q, k in counts.items() for _ in range(k)] + list(extra_px)
        def hm(I, st, args, ce):
            q = I.load(st, I.resolve(st, args[0]))
            nm = field_names(p, q)
            new = {}
            for a in WF:
                v = field(p, q, a)
                if len(v.f) != N or any(type(x) is T for x in v.f): return NotImplemented
                h = {}
                for i, x in enumerate(v.f):
                    if x: h[(i // 1089, i // 33 % 33, i % 33)] = x
                if a == 'moments': new[a] = Vec([float(x) for x in prefix({k: int(x) for k, x in h.items()})])
                else: new[a] = Vec(prefix(h))
            I.store(st, I.resolve(st, args[0]), Agg(q.ty, q.v, tuple(new.get(a, x) for a, x in zip(nm, q.f))))
            return UNIT
        hm.soft = True
        for rev in (False, True):
            def mk(I, st):
                q = I.call_inst(st, p.roots['probe::wu_new'], [])
                return [I.new(st, q), I.new(st, Vec(px)), n]
            def view(I, s, v, A):
                mp = field(p, v, 'color_to_count')
                if type(mp) is not Map: raise Unsupported('result map')
                es = sorted(mp.e)
                return Vec([x for e in es for x in e])
            c.par(layered, c, 'Wu on %s, %d colours%s' % (tag, n, ', map visited backwards' if rev else ''), 'qz_wu', [], mk, lambda E, I, st, A: [x for k in want for x in (k, 0)], extra={names['wu_moments']['sdef']: hm}, view=view, budget=10 ** 8, maprev=rev)
    for n in (1, 2, 5, 16): whole('a small image', counts, n)
    for n in (2, 3, 4): whole('a heavy cell', heavy, n)
    whole('one colour', {0xFF336699: 5}, 4)
    whole('two colours of one cell', {0xFF101010: 3, 0xFF131313: 2}, 2)
    whole('opposite corners', {0xFF000000: 2, 0xFFFFFFFF: 3, 0xFFFF0000: 1}, 3, (0x00FFFFFF, 0xFE00FF00))
    for nm, sw in (('green and blue', (8, 0, 16)), ('red and green', (16, 8, 0)), ('red and blue', (16, 0, 8))):
        sym = {0xFF000000 | x << sw[0] | y << sw[1] | 0x40 << sw[2]: 1 for x in (0, 0xF0) for y in (0, 0xF0)}
        for n in (2, 3): whole('an image symmetric in %s' % nm, sym, n)
    whole('a cube of corners', {0xFF000000 | r << 16 | g << 8 | b: 1 for r in (0, 240) for g in (0, 240) for b in (0, 240)}, 2)
    whole('nearly equal neighbours', {0xFF000007: 1, 0xFF000008: 1, 0xFFFFFFFF: 1}, 3)
    whole('nearly equal neighbours and more', {0xFF000007: 1, 0xFF000008: 1, 0xFFFFFFFF: 1, 0xFF0007FF: 2, 0xFF0008FF: 1, 0xFFF7F7F7: 1, 0xFFF8F7F7: 1}, 7)
    whole('a grey ramp', {0xFF000000 | k * 0x010101: 1 + k % 3 for k in range(0, 256, 17)}, 6)
    bf = [ivar('box' + n, 0, 32) for n in BOXF] + [ivar('boxvol', 0, 40000)]
    def boxstr():
        I = c.interp({}); st = State()
        v, s = I.run_root('wu_box_string', [I.new(st, box(p, bf[:6], bf[6]))], st)
        if type(v) is not Str: raise Unsupported('string')
        want = ['Box: R ', bf[0], ' -> ', bf[1], ' G  ', bf[2], ' -> ', bf[3], ' B ', bf[4], ' -> ', bf[5], ' VOL = ', bf[6]]
        got = []
        for x in v.p:
            if type(x) is str and got and type(got[-1]) is str: got[-1] += x
            elif type(x) is str: got.append(x)
            else: got.append(x[1] if type(x) is tuple else x)
        ok = len(got) == len(want) and all(a is b or a == b for a, b in zip(got, want))
        if ok: c.proved('box description')
        else: c.violation('box description', c.loc('wu_box_string'), 'prints %s' % [show(x) if type(x) is T else x for x in got])
    c.guard('box description', boxstr)


# ---------------------------------------------------------------------------------------------- k-means

def isort(dec, row):
    out = []
    for x in row:
        k = len(out)
        while k and dec(b_or(lt(x[0], out[k - 1][0]), b_and(eq(x[0], out[k - 1][0]), x[1] < out[k - 1][1]))): k -= 1
        out.insert(k, x)
    return out


def dist2(a, b):
    r = None
    for x, y in zip(a, b):
        d = fsub(x, y)
        r = fmul(d, d) if r is None else fadd(r, fmul(d, d))
    return r


def wsmeans(dec, pixels, n, start, iters, mapped, lab, toint):
    """weighted k-means on the distinct pixels: [colour, count] by descending count, and the map asked for"""
    order, cnt = [], {}
    for q in pixels:
        if q not in cnt: order.append(q); cnt[q] = 0
        cnt[q] += 1
    pts = [lab(q) for q in order]
    k = min(n, len(pts))
    cl = [lab(q) for q in start]
    add = k - len(cl)
    if add > 0:
        used, pos = [], 0
        for _ in range(add):
            while True:
                v = models.rng_value(0x42688, pos, 0, len(pts)); pos += 1
                if v not in used: break
            used.append(v)
        cl += [list(pts[v]) for v in used]
    ci = [i % k for i in range(len(pts))]
    D = [[(0.0, j) for j in range(k)] for _ in range(k)]
    sums = [0] * k
    for it in range(iters):
        moved = False
        for i in range(k):
            for j in range(i + 1, k):
                d = dist2(cl[i], cl[j])
                D[j][i] = (d, i); D[i][j] = (d, j)
            D[i] = isort(dec, D[i])
        for i, pt in enumerate(pts):
            prev = ci[i]
            pd = dist2(pt, cl[prev])
            best, new = pd, None
            for j in range(k):
                if dec(ge(D[prev][j][0], fmul(4.0, pd))): continue
                d = dist2(pt, cl[j])
                if dec(lt(d, best)): best, new = d, j
            if new is not None: moved = True; ci[i] = new
        if not moved and it > 0: break
        sums = [0] * k
        acc = [[0.0] * 3 for _ in range(k)]
        for i, pt in enumerate(pts):
            w = cnt[order[i]]
            sums[ci[i]] += w
            acc[ci[i]] = [fadd(a, fmul(x, float(w))) for a, x in zip(acc[ci[i]], pt)]
        cl = [[0.0] * 3 if s == 0 else [fdiv(x, float(s)) for x in a] for s, a in zip(sums, acc)] + cl[k:]
    out = []
    for i in range(k):
        if sums[i] == 0: continue
        q = toint(*cl[i])
        if any(dec(eq(q, o[0])) for o in out): continue
        out.append([q, sums[i]])
    out.sort(key=lambda e: (-e[1], show(e[0]) if type(e[0]) is T else '%d' % e[0]))
    mp = [[q, toint(*cl[ci[i]])] for i, q in enumerate(order)] if mapped else []
    return [[x for e in out for x in e], [x for e in sorted(mp, key=lambda e: e[0]) for x in e]]


def with_field(p, v, name, x):
    n = field_names(p, v)
    return Agg(v.ty, v.v, tuple(x if k == name else y for k, y in zip(n, v.f)))


def conc(f, *a):
    r = f(*a)
    if any(type(x) is T for x in (r if type(r) is list else [r])): raise Unsupported('rule on known colours')
    return r


def P27(c):
    c.rule(EQ)
    c.rule('k-means: distinct pixels weighted by how often they occur, moved only to a strictly nearer mean, means recomputed, at most max_iterations rounds; every answer a function of the input alone')
    p = c.p
    E0 = Env(c, [])
    tg = {n: E0.target(n) for n in ('cu_lab_from_argb', 'cu_argb_from_lab', 'qz_wu', 'wu_moments', 'qz_wsmeans')}
    if any(t is None for t in tg.values()): return c.undecided('k-means', 'entry points not found')
    sl, st_, sw = (tg[n]['sdef'] for n in ('cu_lab_from_argb', 'cu_argb_from_lab', 'qz_wu'))
    # ---- the point provider
    L1, L2 = [fvar('one%d' % i, -128, 128) for i in range(3)], [fvar('two%d' % i, -128, 128) for i in range(3)]
    c.expect('distance is the squared Lab distance', 'lab_distance', lambda I, st: [I.new(st, Vec(L1)), I.new(st, Vec(L2))], dist2(L1, L2))
    layered(c, 'point of a colour', 'lab_from_int', ['cu_lab_from_argb'], lambda I, st: [argb('col')], lambda E, I, st, A: list(E.f(I, st, 'cu_lab_from_argb', A[0]).f))
    layered(c, 'colour of a point', 'lab_to_int', ['cu_argb_from_lab'], lambda I, st: list(L1), lambda E, I, st, A: E.f(I, st, 'cu_argb_from_lab', *L1))
    # ---- k-means
    def lab_cells(pxs, width):
        d = {}
        for q in pxs:
            v = conc(lab_from_argb, q)
            d[q] = [fvar('%s(%08x)~%g' % (n, q, width), x - width, x + width) for n, x in zip('Lab', v)]
        return d
    def view(I, s, v, A):
        def flat(x):
            if type(x) is Choice: return merge(x.c, flat(x.a), flat(x.b))
            a, b = field(p, x, 'color_to_count'), field(p, x, 'input_pixel_to_cluster_pixel')
            if type(a) is Choice: return merge(a.c, flat(with_field(p, x, 'color_to_count', a.a)), flat(with_field(p, x, 'color_to_count', a.b)))
            if type(b) is Choice: return merge(b.c, flat(with_field(p, x, 'input_pixel_to_cluster_pixel', b.a)), flat(with_field(p, x, 'input_pixel_to_cluster_pixel', b.b)))
            if type(a) is not Map or type(b) is not Map: raise Unsupported('result maps')
            if any(type(n) is not int for _, n in a.e) or any(type(q) is not int for q, _ in b.e): raise Unsupported('unknown counts')
            es = sorted(a.e, key=lambda e: (-e[1], show(e[0]) if type(e[0]) is T else '%d' % e[0]))
            return Vec([Vec([y for e in es for y in e]), Vec([y for e in sorted(b.e, key=lambda e: e[0]) for y in e])])
        return flat(v)
    def hooks(cells):
        def hl(I, st, args, ce):
            q = I.resolve(st, args[0])
            if type(q) is not int or q not in cells: return NotImplemented
            return Vec(cells[q])
        def ht(I, st, args, ce):
            return uf('colour_of', 'i', tuple(args), 0xFF000000, 0xFFFFFFFF)
        hl.soft = ht.soft = True
        return {sl: hl, st_: ht}
    def fns(E, cells):
        if sl in E.h: return (lambda q: list(cells[q])), (lambda *a: uf('colour_of', 'i', a, 0xFF000000, 0xFFFFFFFF))
        return (lambda q: conc(lab_from_argb, q)), (lambda *a: conc(argb_from_lab, *a))
    def kmeans(tag, pixels, n, start, iters, mapped, width=0.2, provider=False):
        cells = lab_cells(sorted(set(pixels) | set(start or ())), width)
        t = tg['qz_wsmeans']
        def mk(I, st):
            return [I.new(st, Vec(pixels)), n, Opt(I.new(st, Vec(start)) if start is not None else None),
                    Opt(I.new(st, struct(p, 'PointProviderLab', {})) if provider else None),
                    Opt(iters), Opt(mapped)]
        def spec(E, I, st, A):
            lab, toint = fns(E, cells)
            return forked(lambda dec: wsmeans(dec, pixels, n, start or [], 5 if iters is None else iters, bool(mapped), lab, toint), st.ctx)
        for rev in (False, True) if c.tier == 'thorough' else (False,):
            c.par(layered, c, 'k-means: ' + tag + (', maps visited backwards' if rev else ''), 'qz_wsmeans', [], mk, spec, extra=hooks(cells), view=view, secs=10.0, n=60, budget=10 ** 8, nojoin={t['sdef']}, maprev=rev, after=no_entropy)
    def no_entropy(I):
        if any(e[0] == 'entropy' for e in I.events): c.violation('randomness', c.loc('qz_wsmeans'), 'draws from an unseeded generator: equal inputs give different results')
    R, G, B, W, K, Y = 0xFFFF0000, 0xFF00FF00, 0xFF0000FF, 0xFFFFFFFF, 0xFF000000, 0xFFFFFF00
    r2, r3, g2, b2, b3, k2 = 0xFFEE1010, 0xFFD02020, 0xFF20E020, 0xFF1010E0, 0xFF3030FF, 0xFF202020
    kmeans('no pixels', [], 3, None, None, True)
    kmeans('one pixel', [R], 1, None, None, True)
    kmeans('one colour, many pixels', [G] * 7, 5, [G], None, True)
    kmeans('two groups from seeds', [R, R, r2, G, g2, g2, g2, r3, G, G], 2, [R, G], None, True, width=3.0)
    kmeans('seeds far from the pixels', [R, R, r2, G, g2, g2, g2, r3, G, G], 2, [K, W], None, True, width=1.0)
    kmeans('seeds in the wrong order', [R, R, r2, B, b2, b2, B, r3, B, G, B], 3, [G, B, R], None, True)
    kmeans('one round', [R, r2, r2, G, g2, g2, g2, B, K, k2, k2, k2, k2, k2, B, B], 3, [k2, b3, W], 1, True)
    kmeans('two rounds', [R, r2, r2, G, g2, g2, g2, B, K, k2, k2, k2, k2, k2, B, B], 3, [k2, b3, W], 2, False)
    kmeans('ten rounds', [R, r2, r2, G, g2, g2, g2, B, K, k2, k2, k2, k2, k2, B, B], 3, [k2, b3, W], 10, None, provider=True)
    kmeans('no rounds', [R, R, G], 2, [R, G], 0, True)
    kmeans('an empty cluster', [R, R, r2, r3], 3, [R, G, B], None, True, width=2.0)
    kmeans('more seeds than clusters', [R, R, G], 2, [G, R, B, W], None, True)
    kmeans('seeds equal', [R, R, R, G], 2, [R, R], None, True)
    kmeans('seeds drawn at random', [R, R, G, B, B, B, K, W, W, W, W, W], 3, None, None, True)
    kmeans('some seeds drawn at random', [R, R, G, B, B, B, K, W, W, W, W, W], 4, [W, K], 3, True)
    kmeans('as many clusters as colours', [R, R, G, B, B, B], 3, None, None, False)
    kmeans('more clusters than colours', [R, R, G, B, B, B], 9, [B, G], None, True)
    kmeans('transparent pixels take part', [R, 0x00FF0000, 0x0000FF00, R, G, G, G], 2, [R, G], None, True)
    kmeans('clusters of one colour are reported once', [R, 0x00FF0000, 0x00FF0000, 0x00FF0000, 0x00FF0000, G, G], 3, [R, 0x00FF0000, G], None, True)
    kmeans('means that round to one colour', [0xFF646464, 0xFF656464, 0xFF656564, 0xFF646564, 0xFF646466, 0xFF646463, 0xFF646462, 0xFF646465, 0xFF646464, 0xFF646464], 2, [K, K], 1, True, width=0.001)
    slow = [0xff7f0d87] * 2 + [0xfffeb49a] + [0xff5747dc] * 5 + [0xff0138ca] + [0xffb90f0a] * 2 + [0xff4ee11a] * 5
    for it in (None, 3, 4, 6): kmeans('a slow image, %s rounds' % ('default' if it is None else it), slow, 3, [0xff0138ca, 0xff7f0d87, 0xff5747dc], it, True, width=0.01)
    # ---- the pipeline
    def celebi(tag, pixels, n, mapped):
        cells = lab_cells(sorted(set(pixels) | set(wu_of(pixels, n))), 0.02)
        start = sorted(set(wu_of(pixels, n)))
        ex = hooks(cells)
        def hw(I, st, args, ce):
            px, k = I.resolve(st, args[1]), I.resolve(st, args[2])
            px = I.load(st, px)
            if type(px) is not Vec or any(type(x) is not int for x in px.f) or type(k) is not int: return NotImplemented
            return struct(p, 'QuantizerResult', {'color_to_count': Map([(q, 0) for q in dict.fromkeys(wu_of(list(px.f), k))]), 'input_pixel_to_cluster_pixel': Map([])})
        hw.soft = True
        ex[sw] = hw
        root = 'qz_celebi'
        def mk(I, st): return [I.new(st, Vec(pixels)), n, Opt(mapped)]
        def spec(E, I, st, A):
            lab, toint = fns(E, cells)
            return forked(lambda dec: wsmeans(dec, pixels, n, start, 5, bool(mapped), lab, toint), st.ctx)
        for rev in (False, True):
            c.par(layered, c, 'Celebi: %s%s' % (tag, ', maps visited backwards' if rev else ''), root, [], mk, spec, extra=ex, view=view, secs=10.0, n=60, budget=10 ** 8, nojoin={tg['qz_wsmeans']['sdef']}, maprev=rev, after=no_entropy)
    IM = [R, r2, r2, G, g2, g2, g2, B, K, k2, k2, k2, k2, k2, B, B, b3]
    celebi('three colours', IM, 3, True)
    celebi('five colours', IM, 5, None)
    seedy = [0xff34d22d, 0xffcac825] + [0xfff52f8c] * 5 + [0xff4f5886] * 5 + [0xff2e219e] * 2 + [0xff220e44] * 2 + [0xff0a257a, 0xffcd9d56] + [0xff94290e] * 2
    celebi('an image sensitive to the order of the seeds', seedy, 5, True)
    rounds = [0xff41010b] + [0xff5b2ffb] + [0xff3b719d] + [0xff83ff1c] + [0xff89f6e7] + [0xff7209b7] + [0xff354bdc] * 5 + [0xff79c9e9] * 5 + [0xffbc03d7] * 5 + [0xffcd3066] * 2 + [0xff95ce01] + [0xff6aa22e] + [0xffa2e883] * 2 + [0xffd7fa44] * 2 + [0xff4d73b3] * 5 + [0xffc238e4] * 2 + [0xff65f9ca] * 2 + [0xff6356c6]
    celebi('an image that settles in no fewer than six rounds', rounds, 4, True)
    celebi('one colour', IM, 1, False)
    celebi('as many as there are', [R, r2, r2, G, K, k2, k2, k2, k2], 128, True)
    celebi('empty image', [], 4, True)
    celebi('only transparent pixels', [0x00FF0000, 0x0000FF00, 0x0000FF00], 2, True)
    celebi('a single pixel', [Y], 8, True)


_wu = {}
def wu_of(pixels, n):
    k = (tuple(pixels), n)
    if k not in _wu:
        cnt = {}
        for q in pixels:
            if q >> 24 & 255 == 255: cnt[q] = cnt.get(q, 0) + 1
        _wu[k] = PyWu(cnt).result(n) if cnt else []
    return _wu[k]
