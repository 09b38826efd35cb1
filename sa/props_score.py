"""Score, temperature."""
from frame import *
from env import *
from spec import *
from spec_cam import *
from props_utils import EQ, argb
from props_hct import HN, getters, hct_of, Opt


class Fork(Exception):
    def __init__(self, c): self.c = c


def forked(f, ctx):
    """tree of the results of f(decide), one arm per feasible outcome of its undecided questions"""
    def go(trail):
        cur, pos = [ctx], [0]
        def dec(c):
            if type(c) is not T: return bool(c)
            d = cur[0].decide(c)
            if d is not None: return d
            if pos[0] == len(trail): raise Fork(c)
            v = trail[pos[0]]; pos[0] += 1
            cur[0] = cur[0].assume(c, v)
            return v
        try: return f(dec)
        except Fork as e: q = e.c
        arms_ = []
        for v in (True, False):
            try: cur[0].assume(q, v)
            except Infeasible: arms_.append(None); continue
            arms_.append(go(trail + [v]))
        if arms_[0] is None: return arms_[1]
        if arms_[1] is None: return arms_[0]
        return Cond(q, *arms_)
    return go([])


def wrapmod(n): return n % 360


def cell(name, k, half, frac=1e-9):
    return fvar('%s.%d%s' % (name, k, '+' if half else ''), k + (0.5 if half else 0.0), k + (1.0 if half else 0.5) - frac)


def score_spec(dec, cols, desired, fallback, filt):
    """cols: (argb, hue, chroma, population) by ascending argb"""
    total = 0
    for q in cols: total = iadd(total, q[3])
    def fint(x, step):
        y = fstep(step, x) if type(x) is T else {'floor': math.floor, 'round': lambda z: math.floor(z + 0.5)}[step](x)
        if type(y) is T:
            if y.lo != y.hi: raise Unsupported('hue cell')
            y = y.lo
        return int(y)
    fl = [fint(q[1], 'floor') for q in cols]
    rd = [fint(q[1], 'round') % 360 for q in cols]
    lst = []
    for i, (a, h, ch, n) in enumerate(cols):
        near = 0
        for j, q in enumerate(cols):
            if (rd[i] - fl[j] + 14) % 360 < 30: near = iadd(near, q[3])
        p = fdiv(i2f(near) if type(near) is T else float(near), i2f(total) if type(total) is T else float(total))
        if filt and (dec(lt(ch, 5.0)) or dec(le(p, 0.01))): continue
        w = 0.1 if dec(lt(ch, 48.0)) else 0.3
        lst.append((fadd(fmul(p, 70.0), fmul(fsub(ch, 48.0), w)), a, h))
    out = []
    for e in lst:       # higher scores first; ties by ascending colour value
        i = len(out)
        while i > 0 and dec(gt(e[0], out[i - 1][0])): i -= 1
        out.insert(i, e)
    def diff(a, b):
        d = fabs(fsub(a, b))
        return ite(gt(d, 180.0), 360.0 - d, d)
    ch = []
    for D in range(90, 14, -1):
        ch = []
        for e in out:
            if not any(dec(lt(diff(e[2], k[2]), float(D))) for k in ch): ch.append(e)
            if len(ch) >= desired: break
        if len(ch) >= desired: break
    return [e[1] for e in ch] or [fallback]


ARGBS = [0xFF112233, 0xFF2244AA, 0xFF88CC10, 0xFFC01F77, 0xFFEEBB44]


def P28(c):
    c.rule(EQ)
    c.rule('colours are scored by the share of population within -14..+15 degrees and by chroma against 48; filtered below chroma 5 or share 1%; sorted by score, ties by colour value; chosen greedily at the widest hue spacing from 90 down to 15 degrees that yields enough; the same whatever order the map is visited in')
    E0 = Env(c, [])
    tgt = E0.target('cam_from_int')
    if tgt is None: return c.undecided('scoring', 'entry point not found')
    def scenario(name, cols, desired=None, fallback=None, filt=None, rev=False, assume=()):
        # cols: (argb, hue, chroma, population)
        by = {q[0]: q for q in cols}
        def hk(I, st, args, ce):
            a = I.resolve(st, args[0])
            if a not in by: raise Unsupported('colour')
            others = {k: fvar('cam%x.%s' % (a, k), 0, 100) for k in ('j', 'q', 'm', 's', 'jstar', 'astar', 'bstar')}
            return struct(c.p, 'Cam16', dict(others, hue=by[a][1], chroma=by[a][2]))
        hk.soft = True
        if any(q[1] is None for q in cols): hk = None
        def mk(I, st):
            return [I.new(st, Map([(q[0], q[3]) for q in cols])), Opt(desired), Opt(fallback), Opt(filt)]
        def spec(E, I, st, A_):
            full = []
            for q in sorted(cols, key=lambda q: q[0]):
                m = E.f(I, st, 'cam_from_int', q[0])
                full.append((q[0], field(c.p, m, 'hue'), field(c.p, m, 'chroma'), q[3]))
            return forked(lambda dec: score_spec(dec, full, 4 if desired is None else desired, 0xFF4285F4 if fallback is None else fallback, True if filt is None else filt), st.ctx)
        c.par(layered, c, name + (', map visited backwards' if rev else ''), 'sc_score', ['cu_lstar_from_argb'], mk, spec, extra={tgt['sdef']: hk} if hk else None, assume=assume, maprev=rev, secs=6.0, n=80)
    pop = [ivar('pop%d' % i, 1, 1000000) for i in range(5)]
    chs = [fvar('chroma%d' % i, 0, 150, specials=(5, 48, 4.9, 47.9)) for i in range(5)]
    fb = ivar('fallback', 0, 0xFFFFFFFF)
    H = lambda i, k, half=False: cell('hue%d' % i, k, half)
    scenario('no colours: the default colour', [])
    scenario('no colours: the given fallback', [], fallback=fb)
    scenario('no colours, unfiltered', [], filt=False, fallback=fb)
    for k, half in ((0, False), (359, True), (200, True)):
        scenario('one colour of hue about %d%s' % (k, '.5' if half else ''), [(ARGBS[0], H(0, k, half), chs[0], pop[0])], fallback=fb)
    scenario('one colour, unfiltered', [(ARGBS[0], H(0, 77), chs[0], pop[0])], filt=False, fallback=fb)
    # two colours: hue distance around every threshold of the window and of the spacing
    two = [(100, False, 114, False), (100, False, 114, True), (100, False, 115, False), (100, False, 115, True), (100, False, 116, False), (100, True, 86, False), (100, True, 85, True), (100, False, 85, False),
           (100, False, 84, False), (5, False, 350, False), (5, False, 350, True), (5, False, 351, True), (5, False, 349, False), (359, True, 14, False), (10, False, 190, True), (10, False, 100, False), (10, False, 99, True)]
    slow = c.tier == 'thorough'
    if slow: two.append((359, True, 15, False))
    else: two = two[::2] + [(100, False, 115, True), (5, False, 350, True)]
    for (k, a, l, b) in two:
        cols = [(ARGBS[0], H(0, k, a), chs[0], pop[0]), (ARGBS[1], H(1, l, b), chs[1], pop[1])]
        scenario('two colours of hues about %g and %g' % (k + a / 2, l + b / 2), cols, fallback=fb)
    cols = [(ARGBS[0], H(0, 40), chs[0], pop[0]), (ARGBS[1], H(1, 220), chs[1], pop[1])]
    scenario('two colours, unfiltered', cols, filt=False)
    scenario('two colours, one wanted', cols, desired=1)
    for rev in (False, True):
        scenario('two colours of equal score', [(ARGBS[1], H(1, 20, True), 60.0, pop[0]), (ARGBS[0], H(0, 200, True), 60.0, pop[0])], rev=rev)
        scenario('two equal colours of the same hue', [(ARGBS[1], 120.25, 60.0, pop[0]), (ARGBS[0], 120.25, 60.0, pop[0])], rev=rev)
        for a in (0xFF4060C0, 0xFF80FF10):
            scenario('#%06x opaque and translucent, equally scored' % (a & 0xFFFFFF), [(a, None, None, 300), (a - 0x7F000000, None, None, 200)], rev=rev)
    # three and more: spacing and order of choice, shares symbolic
    for d in (1, 2, 3, 4):
        scenario('three colours, %d wanted' % d, [(ARGBS[i], H(i, k) if slow else k + 0.3, 40.0 + 10 * i, pop[i]) for i, k in enumerate((10, 60, 130))], desired=d, filt=None if slow else False)
        scenario('three colours close together, %d wanted' % d, [(ARGBS[i], H(i, k, True) if slow else k + 0.7, 50.0, pop[i]) for i, k in enumerate((350, 4, 21))], desired=d, filt=None if slow else False)
    conc = [(ARGBS[i], h, ch, n) for i, (h, ch, n) in enumerate(((12.3, 50.0, 100), (61.7, 62.0, 90), (140.2, 48.0, 40), (260.9, 30.0, 300), (359.8, 80.0, 20)))]
    for d in range(1, 7): scenario('five colours, %d wanted' % d, conc, desired=d)
    for rev in (False, True): scenario('five colours of one score', [(a, 30.5 + 72 * i, 60.0, 10) for i, a in enumerate(ARGBS)], desired=5, rev=rev)
    for n in (1, 2):
        scenario('a colour of a share of %d%%' % n, [(ARGBS[0], 40.25, 60.0, n), (ARGBS[1], 220.25, 50.0, 100 - n)])
    for ch in (5.0, 4.75, 48.0): scenario('a colour of chroma exactly %g' % ch, [(ARGBS[0], 40.25, ch, 60), (ARGBS[1], 220.25, 50.0, 40)])
    tight = [(ARGBS[i], h, 60.0, 100 - i) for i, h in enumerate((0.5, 15.4, 30.6, 45.2, 60.8))]
    for d in (2, 3, 4, 5): scenario('five colours at about 15 degrees, %d wanted' % d, tight, desired=d)
    exact = [(ARGBS[i], h, 60.0, 100 - 10 * i) for i, h in enumerate((0.0, 15.0, 30.0, 120.0, 210.0))]
    for d in (3, 4, 5): scenario('colours exactly 15 and 90 degrees apart, %d wanted' % d, exact, desired=d)
