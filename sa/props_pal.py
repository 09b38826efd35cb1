"""Palettes and scheme constructors."""
from frame import *
from env import *
from spec import *
from spec_cam import *
from props_utils import EQ, argb
from props_hct import HN, getters, hct_of, disliked, Opt
from props_dyn import key_hook, keyh, keyc, PALS, VARIANTS

COMMON = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100]


def palview(I, s, v):
    """a palette as [hue, chroma, key colour accessors]"""
    v = I.resolve(s, v)
    if type(v) is Ref: v = I.load(s, v)
    return [field(I.p, v, 'hue'), field(I.p, v, 'chroma')] + getters(I, s, field(I.p, v, 'key_color'))


def palspec(E, I, st, h, ch, key=None):
    return [h, ch] + hct_of(E, I, st, keyc(E, I, st, h, ch) if key is None else key)


def key_color_spec(E, I, st, h, ch):
    """first tone from 50 outwards whose rounded chroma matches, else the closest; as an ARGB graph"""
    def at(t): return hct_of(E, I, st, E.f(I, st, 'hs_solve_to_int', h, ch, t))
    best = at(50.0)
    d = fabs(fsub(best[1], ch))
    steps = []
    for k in range(1, 50):
        steps.append((best[3], eq(fstep('round', ch), fstep('round', best[1]))))
        for t in (50.0 + k, 50.0 - k):
            o = at(t)
            e = fabs(fsub(o[1], ch))
            b = lt(e, d)
            best = [ite(b, x, y) for x, y in zip(o, best)]
            d = ite(b, e, d)
    r = best[3]
    for a, done in reversed(steps): r = ite(done, a, r)
    return r


def P22(c):
    c.rule(EQ)
    c.rule('the answer of a palette for a tone is a function of its hue, chroma and that tone, whatever was looked up before; palettes from a list give back the list')
    h, ch = fvar('hue', 0, 360), fvar('chroma', 0, 150)
    t, t1, t2, t3 = (ivar(n, 0, 100) for n in ('t', 't1', 't2', 't3'))
    x = fvar('tone', 0, 100, specials=(0, 50, 100, 12, 12.5, 98))
    kh = keyh(c)
    L = lambda name, root, mk, spec, **k: layered(c, name, root, HN, mk, spec, extra=kh, **k)
    a = argb()
    L('hue and chroma palette: hue, chroma and key colour', 'tp_of', lambda I, st: [h, ch], lambda E, I, st, A_: palspec(E, I, st, h, ch), view=lambda I, s, v, A_: palview(I, s, v))
    L('palette of a colour: its hue and chroma, itself as key colour', 'tp_from_hct', lambda I, st: [I.new(st, I.run_root('hct_from_int', [a], st)[0])],
      lambda E, I, st, A_: palspec(E, I, st, field(c.p, E.f(I, st, 'cam_from_int', a), 'hue'), field(c.p, E.f(I, st, 'cam_from_int', a), 'chroma'), a), view=lambda I, s, v, A_: palview(I, s, v))
    def mkp(hist, last):
        def mk(I, st):
            p = I.new(st, I.run_root('tp_of', [h, ch], st)[0])
            for y in hist: I.run_root('tp_get', [p, y], st)
            return [p] + last
        return mk
    solve = lambda E, I, st, t: E.f(I, st, 'hs_solve_to_int', h, ch, i2f(t) if sort_of(t) == 'i' else t)
    L('colour of a tone: hue and chroma of the palette at that tone', 'tp_get', mkp([], [t]), lambda E, I, st, A_: solve(E, I, st, t))
    L('colour of a tone after other look-ups', 'tp_get', mkp([t1, t2, t3], [t]), lambda E, I, st, A_: solve(E, I, st, t))
    L('HCT of a tone', 'tp_get_hct', mkp([], [x]), lambda E, I, st, A_: hct_of(E, I, st, solve(E, I, st, x)), view=lambda I, s, v, A_: getters(I, s, v))
    L('HCT of any tone, fractional too, after other look-ups', 'tp_get_hct', mkp([t1, t2], [x]), lambda E, I, st, A_: hct_of(E, I, st, solve(E, I, st, x)), view=lambda I, s, v, A_: getters(I, s, v))
    for f in (12.5, 12.999, 50.25, 50.008, 87.9925, 30.0625):
        k = int(f)
        L('HCT of tone %g after tone %d was looked up' % (f, k), 'tp_get_hct', mkp([k, k + 1], [f]), lambda E, I, st, A_, f=f: hct_of(E, I, st, solve(E, I, st, f)), view=lambda I, s, v, A_: getters(I, s, v))
    L('list of the common tones', 'tp_get_as_list', mkp([t1], []), lambda E, I, st, A_: [solve(E, I, st, float(k)) for k in COMMON])
    cols = [argb('col%d' % k) for k in COMMON]
    def mkl(hist, last):
        def mk(I, st):
            p = I.new(st, I.run_root('tp_from_list', [I.new(st, Vec(cols))], st)[0])
            for y in hist: I.run_root('tp_get', [p, y], st)
            return [p] + last
        return mk
    def best(E, I, st):
        bh, bc = 0.0, 0.0
        for a in cols:
            o = hct_of(E, I, st, a)
            g = b_and(b_not(gt(o[2], 98.0)), gt(o[1], bc))
            bh, bc = ite(g, o[0], bh), ite(g, o[1], bc)
        return bh, bc
    def hc(I, s, v, A_): return palview(I, s, v)[:2]
    L('palette from a list: hue and chroma of its most colourful colour that is not close to white', 'tp_from_list', lambda I, st: [I.new(st, Vec(cols))], lambda E, I, st, A_: list(best(E, I, st)), view=hc)
    for k, want in zip(COMMON, cols):
        L('palette from a list gives back the colour of tone %d' % k, 'tp_get', mkl([37, 50], [k]), lambda E, I, st, A_, w=want: w)
        L('palette from a list gives back the HCT of tone %d' % k, 'tp_get_hct', mkl([], [float(k)]), lambda E, I, st, A_, w=want: hct_of(E, I, st, w), view=lambda I, s, v, A_: getters(I, s, v))
    for k in (1, 5, 37, 91, 98):
        L('palette from a list: other tones from the deduced hue and chroma (%d)' % k, 'tp_get', mkl([], [k]), lambda E, I, st, A_, k=k: E.f(I, st, 'hs_solve_to_int', *(list(best(E, I, st)) + [float(k)])))
    L('list of a palette from a list is that list', 'tp_get_as_list', mkl([41], []), lambda E, I, st, A_: list(cols))
    def mke(I, st):
        p = I.new(st, I.run_root('tp_of', [h, ch], st)[0])
        l = I.run_root('tp_get_as_list', [p], st)[0]
        return [I.new(st, I.run_root('tp_of', [h, ch], st)[0]), I.new(st, I.run_root('tp_from_list', [I.new(st, l)], st)[0])]
    L('a palette equals the palette rebuilt from its list', 'tp_eq', mke, lambda E, I, st, A_: True)
    layered(c, 'key colour: first tone outwards from 50 matching the rounded chroma, else the closest', 'tp_create_key_color', HN, lambda I, st: [h, ch],
            lambda E, I, st, A_: hct_of(E, I, st, key_color_spec(E, I, st, h, ch)), view=lambda I, s, v, A_: getters(I, s, v), secs=20.0)
    def text(name, mk, want): text_of(c, name, 'tp_to_string', mk, want, lambda: Env(c, HN, True, kh))
    text('text of a hue and chroma palette', mkp([t1], []), lambda E, I, st: ['TonalPalette.of(', h, ', ', ch, ')'])
    def lst(E, I, st):
        o = ['TonalPalette.fromList(['] + [y for k in cols for y in (k, ', ')]
        o[-1] = '])'
        return o
    text('text of a palette from a list', mkl([], []), lst)


def core_view(I, s, v, key=True):
    out = []
    for n in PALS + ['error']: out.append(palview(I, s, field(I.p, v, n)))
    return out


def text_of(c, name, root, mk, want, env, norm=lambda s: s):
    """the text a value prints as, numbers compared as values"""
    def go():
        if 'probe::' + root not in c.p.roots: raise Unsupported('entry point behind probe %s not found' % root)
        E = env()
        I = c.interp(E.h); st = State()
        v, st = I.run_root(root, mk(I, st), st)
        c.visited |= I.visited; c.asserts += I.asserts
        c.check_panics(name, root, I)
        for d, ctx in arms(v, Ctx()):
            if type(d) is not Str: raise Unsupported('string')
            got = []
            for p in d.p:
                if type(p) is str and got and type(got[-1]) is str: got[-1] += p
                else: got.append(p if type(p) is str else p[1])
            got = [norm(x) if type(x) is str else x for x in got]
            w = want(E, I, st)
            ok = len(got) == len(w) and all(a == b if type(a) is str else (type(b) is not str and prove(a, b, ctx, Budget()) is True) for a, b in zip(got, w))
            c.require(name, ok, c.loc(root), 'reads %r, expected %r' % (got, w))
    c.guard(name, go)


def P23(c):
    c.rule(EQ)
    a = argb()
    kh = keyh(c)
    def cptext(E, I, st):
        h, ch = hc(E, I, st)
        out = []
        for n, (x, y) in zip(('primary', 'secondary', 'tertiary', 'neutral', 'neutralVariant', 'error'), [(h, fmax(48.0, ch)), (h, 16.0), (h + 60.0, 24.0), (h, 4.0), (h, 8.0), (25.0, 84.0)]):
            t = ['%s: TonalPalette.of(' % n, x, ', ', y, ')']
            if out: out[-1] += ' ' + t[0]; out += t[1:]
            else: out = t
        out[-1] += ' '
        flat_ = []
        for x in out:
            if type(x) is str and flat_ and type(flat_[-1]) is str: flat_[-1] += x
            else: flat_.append(x)
        return flat_
    def hc(E, I, st):
        m = E.f(I, st, 'cam_from_int', a)
        return field(c.p, m, 'hue'), field(c.p, m, 'chroma')
    def of(E, I, st, A_):
        h, ch = hc(E, I, st)
        P = [(h, fmax(48.0, ch)), (h, 16.0), (h + 60.0, 24.0), (h, 4.0), (h, 8.0), (25.0, 84.0)]
        return [palspec(E, I, st, *p) for p in P]
    def content(E, I, st, A_):
        h, ch = hc(E, I, st)
        P = [(h, ch), (h, ch / 3.0), (h + 60.0, ch / 2.0), (h, fmin(ch / 12.0, 4.0)), (h, fmin(ch / 6.0, 8.0)), (25.0, 84.0)]
        return [palspec(E, I, st, *p) for p in P]
    text_of(c, 'text of the core palettes', 'cp_to_string', lambda I, st: [I.new(st, I.run_root('cp_of', [a], st)[0])], cptext, lambda: Env(c, HN, True, kh), norm=lambda s: re.sub(r'\s+', ' ', s))
    V = lambda I, s, v, A_: core_view(I, s, v)
    layered(c, 'core palettes of a colour', 'cp_of', HN, lambda I, st: [a], of, view=V, extra=kh)
    layered(c, 'content palettes of a colour', 'cp_content_of', HN, lambda I, st: [a], content, view=V, extra=kh)
    cols = [[argb('col%d_%d' % (p, k)) for k in COMMON] for p in range(5)]
    flatc = [x for l in cols for x in l]
    def mk(I, st): return [I.new(st, Vec(flatc))]
    def parts(I, s, v, A_):
        out = []
        for n in PALS:
            p = I.new(s, field(I.p, v, n))
            out.append([I.run_root('tp_get', [p, k], s)[0] for k in COMMON])
        out.append(palview(I, s, field(I.p, v, 'error')))
        return out
    layered(c, 'core palette from a list: each palette gives back its thirteen colours', 'cp_from_list', HN, mk, lambda E, I, st, A_: [list(l) for l in cols] + [palspec(E, I, st, 25.0, 84.0)], view=parts, extra=kh)
    def mk2(I, st): return [I.new(st, I.run_root('cp_from_list', mk(I, st), st)[0])]
    layered(c, 'list of a core palette made from a list is that list', 'cp_as_list', HN, mk2, lambda E, I, st, A_: flatc, extra=kh)
    def mk3(I, st): return [I.new(st, I.run_root('cp_of', [a], st)[0])]
    def asl(E, I, st, A_):
        h, ch = hc(E, I, st)
        P = [(h, fmax(48.0, ch)), (h, 16.0), (h + 60.0, 24.0), (h, 4.0), (h, 8.0)]
        return [E.f(I, st, 'hs_solve_to_int', p, q, float(k)) for p, q in P for k in COMMON]
    layered(c, 'list of a core palette: common tones of the five palettes in order', 'cp_as_list', HN, mk3, asl, extra=kh)


EXPR = ([0, 21, 51, 121, 151, 191, 271, 321, 360], [45, 95, 45, 20, 45, 90, 45, 45, 45], [120, 120, 20, 45, 20, 15, 20, 120, 120])
VIBR = ([0, 41, 61, 101, 131, 181, 251, 301, 360], [18, 15, 10, 12, 15, 18, 15, 12, 12], [35, 30, 20, 25, 30, 35, 30, 25, 25])


def rotated(h, hues, rots):
    if len(rots) == 1: return sanitize(A(h, _n2(rots[0])))
    r = h
    for i in reversed(range(len(hues) - 1)):
        r = ite(b_and(lt(_n2(hues[i]), h), lt(h, _n2(hues[i + 1]))), sanitize(A(h, _n2(rots[i]))), r)
    return r


def _n2(x): return float(x) if type(x) is int else x


def P24(c):
    c.rule(EQ)
    c.rule('palette hues and chromas of the nine scheme variants as functions of the source colour; rotation tables of the expressive and vibrant schemes')
    a, dark, level = argb('source'), bvar('dark'), fvar('level', -1.5, 1.5, specials=(-1, 0, 0.5, 1))
    kh = dict(keyh(c))
    E0 = Env(c, [])
    def opaque(name):
        def hk(I, st, args, ce):
            o, tg = [], []
            for x in args: flat(I, st, x, o, tg)
            return o
        return hk
    def measured(I, st, name, args): return I.run_root('hct_from_int', [uf(name, 'i', args, 0xFF000000, 0xFFFFFFFF)], st)[0]
    def input_of(I, st, cache):
        v = I.resolve(st, cache)
        if type(v) is Ref: v = I.load(st, v)
        return I.run_root('hct_to_int', [I.new(st, field(I.p, v, '_input'))], st)[0] if '_input' in field_names(I.p, v) else None
    tc = E0.target('tc_new'); an = E0.target('tc_analogous'); co = E0.target('tc_complement')
    tv = {}
    def hook_new(I, st, args, ce): return Opq('tcache', (args[0],))
    def src(I, st, x):
        v = I.resolve(st, x)
        while type(v) is Ref: v = I.resolve(st, I.load(st, v))
        if type(v) is not Opq: raise Unsupported('temperature cache')
        return I.run_root('hct_to_int', [I.new(st, v.a[0])], st)[0]
    def hook_an(I, st, args, ce):
        n, d = [I.resolve(st, x) for x in args[1:3]]
        n = n.f[0] if n.v == 1 else 5
        d = d.f[0] if d.v == 1 else 12
        if type(n) is not int: raise Unsupported('count')
        s = src(I, st, args[0])
        return Vec([measured(I, st, 'analogous', [s, n, d, i]) for i in range(n)])
    def hook_co(I, st, args, ce): return measured(I, st, 'complement', [src(I, st, args[0])])
    if tc and an and co: kh.update({tc['sdef']: hook_new, an['sdef']: hook_an, co['sdef']: hook_co})
    def fixd(E, I, st, x):
        """palette of a colour moved to tone 70 if disliked: hue, chroma, key colour"""
        o = hct_of(E, I, st, x)
        n = hct_of(E, I, st, E.f(I, st, 'hs_solve_to_int', o[0], o[1], 70.0))
        d = disliked(o)
        r = [ite(d, y, z) for y, z in zip(n, o)]
        return [r[0], r[1]] + r
    def sm(E, I, st, name):
        o = hct_of(E, I, st, a)
        h, ch = o[0], o[1]
        ps = lambda *p: palspec(E, I, st, *p)
        rot = lambda T_, k: rotated(h, T_[0], T_[k])
        san = lambda x: sanitize(x)
        sec = fmax(ch - 32.0, ch * 0.5)
        if name == 'content': return [ps(h, ch), ps(h, sec), fixd(E, I, st, uf('analogous', 'i', [a, 3, 6, 2], 0xFF000000, 0xFFFFFFFF)), ps(h, ch / 8.0), ps(h, ch / 8.0 + 4.0)]
        if name == 'fidelity': return [ps(h, ch), ps(h, sec), fixd(E, I, st, uf('complement', 'i', [a], 0xFF000000, 0xFFFFFFFF)), ps(h, ch / 8.0), ps(h, ch / 8.0 + 4.0)]
        if name == 'expressive': return [ps(san(h + 240.0), 40.0), ps(rot(EXPR, 1), 24.0), ps(rot(EXPR, 2), 32.0), ps(h + 15.0, 8.0), ps(h + 15.0, 12.0)]
        if name == 'fruit_salad': return [ps(san(h - 50.0), 48.0), ps(san(h - 50.0), 36.0), ps(h, 36.0), ps(h, 10.0), ps(h, 16.0)]
        if name == 'monochrome': return [ps(h, 0.0)] * 5
        if name == 'neutral': return [ps(h, 12.0), ps(h, 8.0), ps(h, 16.0), ps(h, 2.0), ps(h, 2.0)]
        if name == 'rainbow': return [ps(h, 48.0), ps(h, 16.0), ps(san(h + 60.0), 24.0), ps(h, 0.0), ps(h, 0.0)]
        if name == 'tonal_spot': return [ps(h, 36.0), ps(h, 16.0), ps(san(h + 60.0), 24.0), ps(h, 6.0), ps(h, 8.0)]
        return [ps(h, 200.0), ps(rot(VIBR, 1), 24.0), ps(rot(VIBR, 2), 32.0), ps(h, 10.0), ps(h, 12.0)]
    NAMES = dict(content='Content', expressive='Expressive', fidelity='Fidelity', fruit_salad='FruitSalad', monochrome='Monochrome', neutral='Neutral', rainbow='Rainbow', tonal_spot='TonalSpot', vibrant='Vibrant')
    for n, var in NAMES.items():
        def spec(E, I, st, A_, n=n, var=var):
            return [a, hct_of(E, I, st, a), Variant(var), dark, level] + sm(E, I, st, n) + [palspec(E, I, st, 25.0, 84.0)]
        def view(I, s, v, A_):
            d = v.f[field_names(I.p, v).index('dynamic_scheme')]
            g = lambda k: field(I.p, d, k)
            return [g('source_color_argb'), getters(I, s, g('source_color_hct')), g('variant'), g('is_dark'), g('contrast_level')] + [palview(I, s, g(p + '_palette')) for p in PALS + ['error']]
        layered(c, '%s scheme: source, variant, mode, contrast and the six palettes' % var, 'scheme_' + n, HN, lambda I, st: [I.run_root('hct_from_int', [a], st)[0], dark, level], spec, view=view, extra=kh)
    # hue rotation with arbitrary tables
    h = [fvar('b%d' % i, 0, 360) for i in range(4)]
    r = [fvar('r%d' % i, -360, 360) for i in range(4)]
    for k in (1, 2, 4):
        def mk(I, st, k=k): return [I.new(st, I.run_root('hct_from_int', [a], st)[0]), I.new(st, Vec(h[:k])), I.new(st, Vec(r[:k]))]
        layered(c, 'hue rotation by a table of %d break points' % k, 'ds_rotated_hue', HN, mk, lambda E, I, st, A_, k=k: rotated(hct_of(E, I, st, a)[0], h[:k], r[:k]), extra=kh)
    # explicit construction
    pal = {p: (fvar(p + '.hue', 0, 360), fvar(p + '.chroma', 0, 120)) for p in PALS}
    for nm, opt, want in (('given', level, level), ('omitted: 0', None, 0.0)):
        def mk(I, st, opt=opt):
            return [a, enumv(c.p, 'Variant', 'Vibrant'), Opt(opt), dark] + [I.run_root('tp_of', list(pal[p]), st)[0] for p in PALS]
        def view(I, s, d, A_):
            g = lambda k: field(I.p, d, k)
            return [g('source_color_argb'), getters(I, s, g('source_color_hct')), g('variant'), g('is_dark'), g('contrast_level')] + [palview(I, s, g(p + '_palette')) for p in PALS + ['error']]
        layered(c, 'explicit scheme keeps its parts; contrast %s' % nm, 'ds_new', HN, mk,
                lambda E, I, st, A_, want=want: [a, hct_of(E, I, st, a), Variant('Vibrant'), dark, want] + [palspec(E, I, st, *pal[p]) for p in PALS] + [palspec(E, I, st, 25.0, 84.0)], view=view, extra=kh)


LEGACY = {}
for p in ('primary', 'secondary', 'tertiary', 'error'):
    for n, l, d in ((p, 40, 80), ('on_' + p, 100, 20), (p + '_container', 90, 30), ('on_%s_container' % p, 10, 80 if p == 'error' else 90)): LEGACY[n] = (p, l, d)
for n, p, l, d in (('background', 'neutral', 99, 10), ('on_background', 'neutral', 10, 90), ('surface', 'neutral', 99, 10), ('on_surface', 'neutral', 10, 90),
                   ('surface_variant', 'neutral_variant', 90, 30), ('on_surface_variant', 'neutral_variant', 30, 80), ('outline', 'neutral_variant', 50, 60), ('outline_variant', 'neutral_variant', 80, 30),
                   ('shadow', 'neutral', 0, 0), ('scrim', 'neutral', 0, 0), ('inverse_surface', 'neutral', 20, 90), ('inverse_on_surface', 'neutral', 95, 20), ('inverse_primary', 'primary', 80, 40)):
    LEGACY[n] = (p, l, d)


def P25(c):
    c.rule(EQ)
    c.rule('tone table of the 29 colours of the fixed light and dark schemes')
    a = argb()
    kh = keyh(c)
    def hc(E, I, st, content):
        m = E.f(I, st, 'cam_from_int', a)
        h, ch = field(c.p, m, 'hue'), field(c.p, m, 'chroma')
        if content: L = [(h, ch), (h, ch / 3.0), (h + 60.0, ch / 2.0), (h, fmin(ch / 12.0, 4.0)), (h, fmin(ch / 6.0, 8.0)), (25.0, 84.0)]
        else: L = [(h, fmax(48.0, ch)), (h, 16.0), (h + 60.0, 24.0), (h, 4.0), (h, 8.0), (25.0, 84.0)]
        return dict(zip(PALS + ['error'], L))
    for root, content, dk in (('sch_light', False, 0), ('sch_dark', False, 1), ('sch_light_content', True, 0), ('sch_dark_content', True, 1)):
        def spec(E, I, st, A_, content=content, dk=dk):
            P = hc(E, I, st, content)
            return {n: E.f(I, st, 'hs_solve_to_int', P[v[0]][0], P[v[0]][1], float(v[1 + dk])) for n, v in LEGACY.items()}
        layered(c, '%s scheme of a colour' % root[4:].replace('_', ' '), root, HN, lambda I, st: [a], spec, extra=kh)
    pal = {p: (fvar(p + '.hue', 0, 360), fvar(p + '.chroma', 0, 120)) for p in PALS + ['error']}
    for dk, root in enumerate(('sch_light_from_core_palette', 'sch_dark_from_core_palette')):
        def mk(I, st): return [struct(c.p, 'CorePalette', {p: I.run_root('tp_of', list(pal[p]), st)[0] for p in PALS + ['error']})]
        layered(c, '%s scheme over arbitrary palettes' % ('dark' if dk else 'light'), root, HN, mk,
                lambda E, I, st, A_, dk=dk: {n: E.f(I, st, 'hs_solve_to_int', pal[v[0]][0], pal[v[0]][1], float(v[1 + dk])) for n, v in LEGACY.items()}, extra=kh)
