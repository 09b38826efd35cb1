"""Dynamic colours: roles, schemes, tone resolution."""
from frame import *
from env import *
from spec import *
from spec_cam import *
from spec_roles import *
from spec_roles import R as ROLES
from props_utils import EQ, argb
from props_hct import HN, getters, hct_of, disliked, Opt
import props_hct

CN = ['ct_ratio_of_tones', 'ct_lighter', 'ct_darker']
VARIANTS = ['Monochrome', 'Neutral', 'TonalSpot', 'Vibrant', 'Expressive', 'Content', 'Fidelity', 'Rainbow', 'FruitSalad']
PALS = ['primary', 'secondary', 'tertiary', 'neutral', 'neutral_variant']


def key_hook(c):
    """key colour of a hue and chroma: some opaque colour, measured"""
    def hk(I, st, args, ce):
        a = uf('key_color', 'i', [I.resolve(st, x) for x in args], 0xFF000000, 0xFFFFFFFF)
        return I.run_root('hct_from_int', [a], st)[0]
    hk.soft = True
    return hk


def keyc(E, I, st, h, ch):
    """ARGB of the key colour of a hue and chroma in an environment"""
    t = E.target('tp_create_key_color')
    if t and t['sdef'] in E.h: return uf('key_color', 'i', [h, ch], 0xFF000000, 0xFFFFFFFF)
    return I.run_root('hct_to_int', [I.new(st, E.f(I, st, 'tp_create_key_color', h, ch))], st)[0]


def hooks_of(c, names):
    E = Env(c, names, True)
    return E.h


def keyh(c):
    t = Env(c, []).target('tp_create_key_color')
    return {t['sdef']: key_hook(c)} if t else {}


class F_:
    """lower-layer functions in an environment"""
    def __init__(self, E, I, st, pal=None, src=None):
        self.E = E; self.I = I; self.st = st; self.memo = {}; self.pal = pal; self.src = src; self.K = 3; self.cut = []
    def f(self, n, *a): return self.E.f(self.I, self.st, n, *a)
    def ratio(self, a, b): return self.f('ct_ratio_of_tones', a, b)
    def lighter(self, a, b): return self.f('ct_lighter', a, b)
    def darker(self, a, b): return self.f('ct_darker', a, b)
    def lighter_unsafe(self, a, b):
        x = self.lighter(a, b)
        return ite(lt(x, 0.0), 100.0, x)
    def darker_unsafe(self, a, b):
        x = self.darker(a, b)
        return ite(lt(x, 0.0), 0.0, x)
    def fg(self, a, b): return foreground(self, a, b)
    def tone(self, n, s): return resolve(self, s, n)
    def hct(self, h, ch, t): return hct_of(self.E, self.I, self.st, self.f('hs_solve_to_int', h, ch, t))
    def source_tone(self): return self.f('cu_lstar_from_argb', self.src)
    def key_tone(self, p): return self.f('cu_lstar_from_argb', keyc(self.E, self.I, self.st, *self.pal[p]))
    def fixed_tone(self, s):
        h, c = self.pal['tertiary']
        o = self.hct(h, c, self.source_tone())
        n = self.hct(o[0], o[1], 70.0)
        return ite(disliked(o), n[2], o[2])
    def chroma_search(self, s):
        h, c = self.pal['secondary']
        K = self.K
        def run(t0, step, gate):
            def it(k, t, close, peak, path):
                more = lt(close, c)
                if k == K:
                    self.cut.append(b_and(*(path + [more])))
                    return t
                t2 = t + step
                pot = self.hct(h, c, t2)[1]
                b1, b2 = gt(peak, pot), lt(fabs(fsub(pot, c)), 0.4)
                nxt = it(k + 1, t2, ite(lt(fabs(fsub(pot, c)), fabs(fsub(close, c))), pot, close), fmax(peak, pot), path + [more, b_not(b1), b_not(b2)])
                return ite(more, ite(b_or(b1, b2), t2, nxt), t)
            c0 = self.hct(h, c, t0)[1]
            return it(0, t0, c0, c0, [gate])
        return ite(s.dark, run(30.0, 1.0, s.dark), run(90.0, -1.0, b_not(s.dark)))


def scheme_args(c, I, st, variant, pal, src, dark, level):
    """a scheme over palettes of unknown hue and chroma, built through the constructors"""
    ps = [I.run_root('tp_of', list(pal[p]), st)[0] for p in PALS]
    return I.run_root('ds_new', [src, enumv(c.p, 'Variant', variant), Opt(level), dark] + ps, st)[0]


def symbols():
    pal = {p: (fvar(p + '.hue', 0, 360), fvar(p + '.chroma', 0, 120)) for p in PALS}
    pal['error'] = (25.0, 84.0)
    return pal, argb('source'), bvar('dark'), fvar('level', -1.5, 1.5, specials=(-1, 0, 0.5, 1))


def P19(c):
    c.rule(EQ)
    c.rule('tone resolution of a dynamic colour with arbitrary tones, curves, backgrounds and pair constraints')
    pal, src, dark, level = symbols()
    t, b, b2, ta, tb = (fvar(n, 0, 100, specials=(49, 50, 60, 0, 100)) for n in ('tone', 'back', 'back2', 'tone_a', 'tone_b'))
    k = [fvar('want%d' % i, 1, 21) for i in range(4)]
    ca, cb = fvar('want_a', 1, 21), fvar('want_b', 1, 21)
    dl = fvar('delta', 0, 30, specials=(10, 15))
    isbg, tog = bvar('is_background'), bvar('together')
    s = Sch('TonalSpot', dark, level)
    kh = keyh(c)
    def case(name, root, args, spec):
        def mk(I, st):
            sc = I.new(st, scheme_args(c, I, st, 'TonalSpot', pal, src, dark, level))
            return [I.new(st, I.run_root(root, args, st)[0]), sc]
        layered(c, name, 'dc_get_tone', HN + CN, mk, lambda E, I, st, A_: spec(F_(E, I, st)), extra=kh, secs=9.0 if c.tier == 'quick' else 40.0)
    case('no background: the tone itself', 'dcp_plain', [t, isbg], lambda F: t)
    for bgv in (False, True):
        case('one background: kept if good enough, otherwise the nearest tone with the wanted contrast%s' % ('; backgrounds avoid 50..60' if bgv else ''), 'dcp_on', [t, bgv, b] + k,
             lambda F, bgv=bgv: single(F, s, t, bgv, b, tuple(k)))
    case('two backgrounds: contrasts with both when possible', 'dcp_on2', [t, b, b2] + k, lambda F: single(F, s, t, False, b, tuple(k), b2))
    for i, pol in enumerate(('Darker', 'Lighter', 'Nearer', 'Farther')):
        for me in 'ab':
            for tg in (False, True):
                case('pair %s, member %s%s' % (pol, me, ', kept together' if tg else ''), 'dcp_pair_' + me, [i, ta, ca, tb, cb, b, dl, tg],
                     lambda F, pol=pol, me=me, tg=tg: paired(F, s, b, ta, tb, curve((ca,) * 4, level), curve((cb,) * 4, level), dl, pol, tg, me == 'a'))
    r = fvar('ratio', 1, 21)
    layered(c, 'foreground tone', 'dc_foreground_tone', CN, lambda I, st: [b, r], lambda E, I, st, A_: foreground(F_(E, I, st), b, r))
    w = fvar('w', -10, 110)
    c.expect('prefers a light foreground', 'dc_prefers_light', [w], prefers(w))
    c.expect('allows a light foreground', 'dc_allows_light', [w], le(rnd(w), 49.0))
    c.expect('enable light foreground', 'dc_enable_light_foreground', [w], ite(b_and(prefers(w), gt(rnd(w), 49.0)), 49.0, w))


def name_is(want):
    def f(v, ctx, J, st):
        n = field(J.p, v, 'name')
        for n, _ in arms(n, ctx):
            got = ''.join(n.p) if type(n) is Str else '?'
            if got != want: return 'is %s, expected %s' % (got, want)
        return True
    return f


def named(want, dark):
    if want is None: return Variant('None')
    if want == 'highest_surface': return Variant('Some', Cond(dark, name_is('surface_bright'), name_is('surface_dim')))
    return Variant('Some', name_is(want))


UNROLL = 4


def role_tone(c, name, variant, secs, whole):
    """as role_tone_; a disagreement must persist with the real contrast functions in place of arbitrary ones"""
    m0, n0 = len(c.ob), len(c.viol)
    c.hints, c.harvest = (), []
    try: role_tone_(c, name, variant, secs, whole, HN + CN)
    finally: got, c.harvest = c.harvest, None
    if len(c.viol) == n0: return
    ob, vi = c.ob[m0:], c.viol[n0:]
    del c.ob[m0:]; del c.viol[n0:]
    c.hints = got
    try: role_tone_(c, name, variant, 15.0, whole, HN)
    except (Unsupported, RecursionError): pass
    finally: c.hints = ()
    if len(c.viol) > n0 or any(v != 'undecided' for _, v, _ in c.ob[m0:]): return
    del c.ob[m0:]
    c.ob += ob; c.viol += vi


def role_tone_(c, name, variant, secs, whole, names):
    """tone of a role in schemes of a variant: the role's own tone rule, or the resolved tone"""
    pal, src, dark, level = symbols()
    s = Sch(variant, dark, level)
    E = Env(c, names, True, keyh(c))
    I = c.interp(E.h, unroll=UNROLL)
    st = State()
    sc = I.new(st, scheme_args(c, I, st, variant, pal, src, dark, level))
    d = I.new(st, I.run_root('role_' + name, [], st)[0])
    ctx = st.ctx
    F = F_(E, I, st, pal, src); F.K = UNROLL - 1
    want = resolve(F, s, name) if whole else ROLES[name].tone(s, F)
    v, s2 = I.run_root('dc_get_tone' if whole else 'dcf_tone', [d, sc], st)
    c.visited |= I.visited; c.asserts += I.asserts
    for x in F.cut: ctx = ctx.assume(x, False)
    c.check_panics('tone of %s' % name, 'role_' + name, I)
    return c.same('%s, %s schemes: %s' % (name, variant, 'resolved tone' if whole else 'tone'), c.loc('role_' + name), v, want, ctx, I, s2, secs=secs, n=150)


def P17(c):
    c.rule(EQ)
    c.rule('design table of the 54 roles: palette, tone in each mode and variant, contrast curve, backgrounds, tone pairs (public facts of each role object; where they cannot be extracted, the resolved tone instead)')
    pal, src, dark, level = symbols()
    kh = keyh(c)
    for name, r in ROLES.items():
        def local(name=name, r=r):
            I = c.interp(dict(Env(c, HN, True).h, **kh), unroll=UNROLL)
            st = State()
            sc = I.new(st, scheme_args(c, I, st, 'TonalSpot', pal, src, dark, level))
            d = I.new(st, I.run_root('role_' + name, [], st)[0])
            g = lambda root, *a: I.run_root(root, [d] + list(a), st)[0]
            w = c.loc('role_' + name)
            c.same('%s: name' % name, w, g('dcf_name'), name, Ctx(), I, st)
            p = g('dcf_palette', sc)
            h, ch = pal[r.pal]
            c.same('%s: palette' % name, w, p, {'hue': h, 'chroma': ch}, Ctx(), I, st)
            if r.curve is None: c.same('%s: no contrast requirement' % name, w, g('dcf_curve', level), Variant('None'), Ctx(), I, st)
            else: c.same('%s: contrast curve' % name, w, g('dcf_curve', level), Variant('Some', curve(r.curve, level)), Ctx(), I, st)
            c.same('%s: background' % name, w, g('dcf_back', sc), named(r.back, dark), Ctx(), I, st)
            c.same('%s: second background' % name, w, g('dcf_back2', sc), named(r.back2, dark), Ctx(), I, st)
            c.same('%s: is a background' % name, w, g('dcf_is_background'), r.bg, Ctx(), I, st)
            if r.pair is None: pr = Variant('None')
            else:
                a, b, delta, pol, tog = r.pair
                pr = Variant('Some', {'role_a': name_is(a), 'role_b': name_is(b), 'delta': delta, 'polarity': Variant(pol), 'stay_together': tog})
            c.same('%s: tone pair' % name, w, g('dcf_pair', sc), pr, Ctx(), I, st)
        def tones(name=name):
            for v in VARIANTS: role_tone(c, name, v, 3.0, False)
        def end(name=name):
            for v in VARIANTS: role_tone(c, name, v, 3.0, True)
        n0, m0 = len(c.viol), len(c.ob)
        c.guard(name, local)
        c.guard(name + ' tones', tones)
        if len(c.viol) == n0 and any(v == 'undecided' for _, v, _ in c.ob[m0:]):
            # role-level facts not established: judge the resolved tone
            c.guard(name + ' resolved', end)
