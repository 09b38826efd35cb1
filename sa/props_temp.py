"""Temperature cache."""
from frame import *
from env import *
from spec import *
from props_utils import EQ, argb
from props_hct import HN, getters, hct_of, Opt
from props_score import forked


class Wheel:
    """a colour wheel: what the solver, the appearance model and L*a*b* say about its colours"""
    def __init__(self, name, prof, jit=lambda k: 0.0, code=lambda k: 0xFF000000 + k * 257 + 5):
        self.name = name
        self.code = lambda k: code(k % 360)
        self.hue = {}; self.prof = {}
        for k in range(360):
            a = code(k)
            if a not in self.hue: self.hue[a] = (k + jit(k)) % 360.0; self.prof[a] = float(prof(k))

    def with_input(self, hue, prof, a=0xFFABCDEF):
        w = Wheel.__new__(Wheel); w.__dict__.update(self.__dict__)
        w.hue = dict(self.hue); w.prof = dict(self.prof)
        if a not in w.hue: w.hue[a] = hue; w.prof[a] = prof
        w.inp = a
        return w


CH, TN = fvar('wheel.chroma', 0, 120), fvar('wheel.tone', 0, 100)
OFF, SC = fvar('warm.offset', -5, 5), fvar('warm.scale', 0.01, 10)


def wheel_env(c, w):
    """hooks that make the lower layers speak about wheel w"""
    E0 = Env(c, [])
    def solve(I, st, args, ce):
        h, ch, tn = (I.resolve(st, x) for x in args)
        if type(h) is T: raise Unsupported('hue of a wheel colour')
        if not (ch is CH and tn is TN):
            # not a colour of this wheel
            return uf('hs_solve_to_int', 'i', (h, ch, tn), 0xFF000000, 0xFFFFFFFF)
        h = h % 360.0
        if h != math.floor(h): raise Unsupported('hue of a wheel colour')
        return w.code(int(h))
    def need(I, st, x):
        a = I.resolve(st, x)
        if type(a) is T or a not in w.hue: raise Unsupported('colour off the wheel')
        return a
    def cam(I, st, args, ce):
        a = need(I, st, args[0])
        return struct(c.p, 'Cam16', dict({k: 0.0 for k in ('j', 'q', 'm', 's', 'jstar', 'astar', 'bstar')}, hue=w.hue[a], chroma=CH))
    def lstar(I, st, args, ce): return TN
    def lab(I, st, args, ce):
        # L*a*b* hue 50: temperature -0.5 + 0.02 C^1.07, so the profile fixes the chroma
        p = w.prof[need(I, st, args[0])]
        ch = (abs(p) / 0.02) ** (1 / 1.07)
        th = math.radians(50.0 if p >= 0 else 230.0)
        return Vec([50.0, ch * math.cos(th), ch * math.sin(th)])
    def raw(I, st, args, ce):
        h = I.load(st, I.resolve(st, args[0]))
        return fadd(OFF, fmul(SC, w.prof[need(I, st, argb_of(c, I, st, h))]))
    raw.soft = True
    h = {}
    for n, f in (('hs_solve_to_int', solve), ('cam_from_int', cam), ('cu_lstar_from_argb', lstar), ('cu_lab_from_argb', lab), ('tc_raw_temperature', raw)):
        t = E0.target(n)
        if t is None: raise Unsupported('entry point behind probe %s not found' % n)
        h[t['sdef']] = f
    return h


def rnd(x): return int(math.floor(x + 0.5))


def between(x, a, b): return a <= x <= b if a < b else (a <= x or x <= b)


class Facts:
    """temperatures of the wheel and of the input in the environment at hand"""
    def __init__(self, c, w, E, I, st):
        self.w = w
        self.cols = [w.code(k) for k in range(361)]
        t = {}
        for a in set(self.cols) | {w.inp}:
            h = E.f(I, st, 'hct_from_int', a)
            t[a] = E.f(I, st, 'tc_raw_temperature', I.new(st, h))
        self.t = t
        self.hct = {a: dict(hue=w.hue[a], argb=a) for a in t}

    def sort(self, dec):
        out = []
        for a in self.cols + [self.w.inp]:
            lo, hi = 0, len(out)
            while lo < hi:
                m = (lo + hi) // 2
                if dec(lt(self.t[a], self.t[out[m]])): hi = m
                else: lo = m + 1
            out.insert(lo, a)
        return out

    def rel(self, dec, a, cold, warm):
        r = fsub(self.t[warm], self.t[cold])
        if dec(eq(r, 0.0)): return 0.5
        return fdiv(fsub(self.t[a], self.t[cold]), r)


def complement(F, dec):
    w = F.w
    s = F.sort(dec); cold, warm = s[0], s[-1]
    ch, wh = w.hue[cold], w.hue[warm]
    cw = between(w.hue[w.inp], ch, wh)
    start, end = (wh, ch) if cw else (ch, wh)
    want = fsub(1.0, F.rel(dec, w.inp, cold, warm))
    best, ans = 1000.0, F.cols[rnd(w.hue[w.inp])]
    rng = fsub(F.t[warm], F.t[cold])
    if dec(eq(rng, 0.0)): return ans
    for k in range(360):
        h = (start + k) % 360.0
        if not between(h, start, end): continue
        a = F.cols[rnd(h)]
        e = fabs(fsub(want, fdiv(fsub(F.t[a], F.t[cold]), rng)))
        if dec(lt(e, best)): best, ans = e, a
    return ans


def analogous(F, dec, count, div):
    w = F.w
    s = F.sort(dec); cold, warm = s[0], s[-1]
    h0 = rnd(w.hue[w.inp])
    rel = {a: F.rel(dec, a, cold, warm) for a in F.t}
    at = lambda k: F.cols[(h0 + k) % 360]
    total = 0.0
    last = rel[F.cols[h0]]
    for k in range(360):
        total = fadd(total, fabs(fsub(rel[at(k)], last))); last = rel[at(k)]
    step = fdiv(total, float(div))
    allc = [F.cols[h0]]
    run, k, last = 0.0, 1, rel[F.cols[h0]]
    while len(allc) < div:
        a = at(k)
        run = fadd(run, fabs(fsub(rel[a], last)))
        ok = dec(ge(run, fmul(float(len(allc)), step)) if type(step) is T or type(run) is T else run >= len(allc) * step)
        add = 1
        while ok and len(allc) < div:
            allc.append(a)
            ok = dec(ge(run, fmul(float(len(allc) + add), step)) if type(step) is T or type(run) is T else run >= (len(allc) + add) * step)
            add += 1
        last = rel[a]; k += 1
        if k > 360:
            allc += [a] * (div - len(allc))
            break
    ccw = (count - 1) // 2
    cw = count - ccw - 1
    return [allc[-i % len(allc)] for i in range(ccw, 0, -1)] + [w.inp] + [allc[i % len(allc)] for i in range(1, cw + 1)]


def wheels():
    sin = math.sin
    jit = lambda k: 0.37 * sin(k * 1.7)
    smooth = Wheel('smooth', lambda k: 1.5 + sin(math.radians(k - 40)) + 0.2 * sin(math.radians(3 * k)), jit)
    wrap = Wheel('warm to cold through 0', lambda k: 2.0 + math.cos(math.radians(k + 100)) * 1.3, lambda k: -0.45 + 0.2 * sin(k))
    steps = Wheel('in steps', lambda k: 0.25 * (1 + (k // 30 * 5) % 12), lambda k: 0.1)
    double = Wheel('with repeated colours', lambda k: 1.0 + 0.8 * sin(math.radians(k // 3 * 3)), code=lambda k: 0xFF000000 + (k // 3) * 771 + 9)
    flat = Wheel('of one colour', lambda k: 0.7, code=lambda k: 0xFFFFFFFF, jit=lambda k: 209.49)
    saw = Wheel('falling all the way round', lambda k: 2.0 - 1.5 * ((k - 100) % 360) / 360)
    narrow = Wheel('nearly grey', lambda k: 0.2 + 0.004 * sin(math.radians(k - 75)), jit)
    return smooth, wrap, steps, double, flat, saw, narrow


def P29(c):
    c.rule(EQ)
    c.rule('the wheel has one colour per whole hue 0..360 at the input\'s chroma and tone; ordering, warmest, coldest, relative temperature, complement and analogous colours are those of the wheel plus the input, whatever was asked of the cache before')
    # --- formulas
    a, b, x = (fvar(n, 0, 360, specials=(0, 10, 350, 359.9)) for n in ('from', 'to', 'angle'))
    c.expect('angle between two others, clockwise', 'tc_is_between', [x, a, b], ite(lt(a, b), b_and(le(a, x), le(x, b)), b_or(le(a, x), le(x, b))))
    def rawt(E, I, st, A):
        h = I.load(st, A[0])
        lab = E.f(I, st, 'cu_lab_from_argb', argb_of(c, I, st, h))
        la, lb = lab.f[1], lab.f[2]
        hue = sanitize(fmul(fatan2(lb, la), 180.0 / math.pi))
        chroma = sqrt(fadd(fmul(la, la), fmul(lb, lb)))
        return fadd(-0.5, fmul(fmul(0.02, fpow(chroma, 1.07)), funary('cos', fmul(sanitize(fsub(hue, 50.0)), math.pi / 180.0))))
    layered(c, 'raw temperature of any colour', 'tc_raw_temperature', ['cu_lab_from_argb', 'cu_lstar_from_argb', 'cam_from_int'], lambda I, st: [I.new(st, Env(c, []).f(I, st, 'hct_from_int', argb()))], rawt)
    # --- the wheel, any input
    W = wheels()
    inputs = {}
    for w in W:
        L = [w.with_input(200.4, 1.61)]
        if w.name == 'smooth': L += [w.with_input(359.7, 0.9), w.with_input(359.995, 1.1), w.with_input(359.5, 1.9), w.with_input(0.2, 2.2, 0xFF123456), w.with_input(130.0, 5.0), w.with_input(311.3, 0.01), w.with_input(44.5, 1.0)]
        elif w is W[5]: L = [w.with_input(99.5, 5.0), w.with_input(99.5, 0.1), w.with_input(99.25, 1.3)]
        elif w.name == 'nearly grey': L = [w.with_input(200.4, 0.2017), w.with_input(20.0, 0.1985)]
        elif w.name == 'of one colour': L = [w.with_input(0.0, 0.0, 0xFFFFFFFF)]
        else: L += [w.with_input(61.0, 0.0, w.code(61)), w.with_input(299.5, 1.2)]
        inputs[w.name] = L
    def run(name, w, root, extra, spec, view=None, rel=False, before=(), **kw):
        def go():
            hk = wheel_env(c, w)
            def mk(I, st):
                E = Env(c, [])
                h = E.f(I, st, 'hct_from_int', w.inp)
                tc = I.new(st, I.call_inst(st, c.p.roots['probe::tc_new'], [h]))
                for r, ex in before:
                    I.call_inst(st, c.p.roots['probe::' + r], [tc] + ex(I, st))
                return [tc] + extra(I, st)
            if rel:
                t = Env(c, []).target('tc_relative_temperature')
                box = {}
                def rt(I, st, args, ce):
                    h = I.load(st, I.resolve(st, args[1]))
                    a = I.resolve(st, argb_of(c, I, st, h))
                    F = box.get('F')
                    if F is None: return NotImplemented
                    return box['rel'][a]
                rt.soft = True
                if t is not None: hk[t['sdef']] = rt
            def sp(E, I, st, A):
                F = Facts(c, w, E, I, st)
                if rel:
                    dec = lambda q: q if type(q) is bool else st.ctx.decide(q)
                    s = F.sort(dec)
                    box['rel'] = {a: F.rel(dec, a, s[0], s[-1]) for a in F.t}
                    box['F'] = F
                return forked(lambda dec: spec(F, dec), st.ctx)
            layered(c, name, root, [], mk, sp, extra=hk, view=view, budget=40000000, secs=6.0, n=60, **kw)
        c.par(c.guard, name, go)
    none = lambda I, st: []
    one = lambda I, s, v, A: argb_of(c, I, s, v)
    many = lambda I, s, v, A: Vec([argb_of(c, I, s, x) for x in v.f])
    for w0 in W:
        for w in inputs[w0.name]:
            nm = '%s wheel, input of hue %g: ' % (w.name, w.hue[w.inp])
            run(nm + 'complement', w, 'tc_complement', none, lambda F, dec: complement(F, dec), one)
            run(nm + 'analogous', w, 'tc_analogous', lambda I, st: [Opt(None), Opt(None)], lambda F, dec: analogous(F, dec, 5, 12), many, rel=True)
    w = inputs['smooth'][0]
    f = inputs['of one colour'][0]
    nm = 'smooth wheel: '
    run(nm + 'one colour per whole hue', w, 'tc_hcts_by_hue', none, lambda F, dec: F.cols, many)
    run(nm + 'coldest to warmest', w, 'tc_hcts_by_temp', none, lambda F, dec: F.sort(dec), many)
    run('wheel in steps: coldest to warmest', inputs['in steps'][0], 'tc_hcts_by_temp', none, lambda F, dec: F.sort(dec), many)
    run(nm + 'warmest', w, 'tc_warmest', none, lambda F, dec: F.sort(dec)[-1], one)
    run(nm + 'coldest', w, 'tc_coldest', none, lambda F, dec: F.sort(dec)[0], one)
    def irel(F, dec):
        s = F.sort(dec)
        return F.rel(dec, F.w.inp, s[0], s[-1])
    def crel(k):
        def g(F, dec):
            s = F.sort(dec)
            return F.rel(dec, F.cols[k], s[0], s[-1])
        return g
    def member(w, k):
        def g(I, st):
            return [I.new(st, Env(c, []).f(I, st, 'hct_from_int', w.code(k)))]
        return g
    for v in (w, f, inputs['smooth'][3], inputs['smooth'][4], *inputs['nearly grey']):
        run('%s wheel, input of hue %g: relative temperature of the input' % (v.name, v.hue[v.inp]), v, 'tc_input_relative_temperature', none, irel)
    for k in (0, 50, 233): run(nm + 'relative temperature at hue %d' % k, w, 'tc_relative_temperature', member(w, k), crel(k))
    for k in (0, 200): run('nearly grey wheel: relative temperature at hue %d' % k, inputs['nearly grey'][0], 'tc_relative_temperature', member(inputs['nearly grey'][0], k), crel(k))
    run('wheel of one colour: relative temperature', f, 'tc_relative_temperature', member(f, 7), crel(7))
    for cnt, dv in ((1, 12), (2, 12), (3, 6), (4, 12), (6, 12), (5, 3), (7, 4), (3, 24), (12, 12), (8, 5), (6, 3), (12, 5), (9, 2), (5, 1), (14, 4)):
        run(nm + '%d analogous colours of %d divisions' % (cnt, dv), w, 'tc_analogous', (lambda p, q: lambda I, st: [Opt(p), Opt(q)])(cnt, dv), (lambda p, q: lambda F, dec: analogous(F, dec, p, q))(cnt, dv), many, rel=True)
    # --- history independence: the same answer whatever was asked before
    before = {'complement': ('tc_complement', none), 'temperatures': ('tc_temps_by_hct', none), 'order': ('tc_hcts_by_temp', none), 'wheel': ('tc_hcts_by_hue', none), 'relative': ('tc_input_relative_temperature', none)}
    for k, b in before.items():
        run('complement after %s' % k, w, 'tc_complement', none, lambda F, dec: complement(F, dec), one, before=[b])
        run('order after %s' % k, w, 'tc_hcts_by_temp', none, lambda F, dec: F.sort(dec), many, before=[b])
        run('relative temperature of the input after %s' % k, w, 'tc_input_relative_temperature', none, irel, before=[b])
        run('wheel after %s' % k, w, 'tc_hcts_by_hue', none, lambda F, dec: F.cols, many, before=[b])


def argb_of(c, I, st, v):
    if type(v) is Ref: v = I.load(st, v)
    if type(v) is Choice: return merge(v.c, argb_of(c, I, st, v.a), argb_of(c, I, st, v.b))
    r = I.new(st, v)
    x = I.call_inst(st, c.p.roots['probe::hct_to_int'], [r])
    st.mem.pop(r.key, None)
    return x
