"""Material colour roles: the design table and the tone resolution rule, as expected value graphs."""
from frame import *
from spec import *
from spec_cam import A, M, D

C1 = (1.0, 1.0, 3.0, 4.5); C3 = (3.0, 4.5, 7.0, 7.0); C45 = (4.5, 7.0, 11.0, 21.0); CV = (3.0, 4.5, 7.0, 11.0)


def curve(k, l):
    def lerp(a, b, t): return A(M(fsub(1.0, t), a), M(t, b))
    return ite(le(l, -1.0), k[0], ite(lt(l, 0.0), lerp(k[0], k[1], A(l, 1.0)), ite(lt(l, 0.5), lerp(k[1], k[2], M(l, 2.0)),
               ite(lt(l, 1.0), lerp(k[2], k[3], M(fsub(l, 0.5), 2.0)), k[3]))))


class Sch:
    """a symbolic scheme: variant is concrete, everything else unknown"""
    def __init__(self, variant, dark, level):
        self.variant = variant; self.dark = dark; self.level = level
        self.mono = variant == 'Monochrome'
        self.fid = variant in ('Fidelity', 'Content')


class Role:
    def __init__(self, name, pal, tone, bg=False, back=None, back2=None, curve=None, pair=None):
        self.name = name; self.pal = pal; self.tone = tone; self.bg = bg; self.back = back; self.back2 = back2; self.curve = curve; self.pair = pair


R = {}
def role(*a, **k):
    r = Role(*a, **k); R[r.name] = r


def ld(d, l):          # by mode: dark value, light value
    return lambda s, F: ite(s.dark, d, l)
def mono(md, ml, d, l):
    return lambda s, F: ite(s.dark, md, ml) if s.mono else ite(s.dark, d, l)
def cv(d, l):
    f = lambda x, s: curve(x, s.level) if isinstance(x, tuple) else x
    return lambda s, F: ite(s.dark, f(d, s), f(l, s))


HS = 'highest_surface'
for p in ('primary', 'secondary', 'tertiary', 'neutral', 'neutral_variant'):
    role(p + '_palette_key_color', p, lambda s, F, p=p: F.key_tone(p))
role('background', 'neutral', ld(6.0, 98.0), True)
role('on_background', 'neutral', ld(90.0, 10.0), back='background', curve=(3.0, 3.0, 4.5, 7.0))
role('surface', 'neutral', ld(6.0, 98.0), True)
role('surface_dim', 'neutral', cv(6.0, (87.0, 87.0, 80.0, 75.0)), True)
role('surface_bright', 'neutral', cv((24.0, 24.0, 29.0, 34.0), 98.0), True)
role('surface_container_lowest', 'neutral', cv((4.0, 4.0, 2.0, 0.0), 100.0), True)
role('surface_container_low', 'neutral', cv((10.0, 10.0, 11.0, 12.0), (96.0, 96.0, 96.0, 95.0)), True)
role('surface_container', 'neutral', cv((12.0, 12.0, 16.0, 20.0), (94.0, 94.0, 92.0, 90.0)), True)
role('surface_container_high', 'neutral', cv((17.0, 17.0, 21.0, 25.0), (92.0, 92.0, 88.0, 85.0)), True)
role('surface_container_highest', 'neutral', cv((22.0, 22.0, 26.0, 30.0), (90.0, 90.0, 84.0, 80.0)), True)
role('on_surface', 'neutral', ld(90.0, 10.0), back=HS, curve=C45)
role('surface_variant', 'neutral_variant', ld(30.0, 90.0), True)
role('on_surface_variant', 'neutral_variant', ld(80.0, 30.0), back=HS, curve=CV)
role('inverse_surface', 'neutral', ld(90.0, 20.0))
role('inverse_on_surface', 'neutral', ld(20.0, 95.0), back='inverse_surface', curve=C45)
role('outline', 'neutral_variant', ld(60.0, 50.0), back=HS, curve=(1.5, 3.0, 4.5, 7.0))
role('outline_variant', 'neutral_variant', ld(30.0, 80.0), back=HS, curve=C1)
role('shadow', 'neutral', ld(0.0, 0.0))
role('scrim', 'neutral', ld(0.0, 0.0))
role('surface_tint', 'primary', ld(80.0, 40.0), True)
def near(x): return (x + '_container', x, 10.0, 'Nearer', False)
def fixd(x): return (x + '_fixed', x + '_fixed_dim', 10.0, 'Lighter', True)
role('primary', 'primary', mono(100.0, 0.0, 80.0, 40.0), True, HS, None, C3, near('primary'))
role('on_primary', 'primary', mono(10.0, 90.0, 20.0, 100.0), False, 'primary', None, C45)
role('primary_container', 'primary', lambda s, F: F.source_tone() if s.fid else mono(85.0, 25.0, 30.0, 90.0)(s, F), True, HS, None, C1, near('primary'))
role('on_primary_container', 'primary', lambda s, F: F.fg(F.tone('primary_container', s), 4.5) if s.fid else mono(0.0, 100.0, 90.0, 10.0)(s, F), False, 'primary_container', None, C45)
role('inverse_primary', 'primary', ld(40.0, 80.0), False, 'inverse_surface', None, C3)
role('secondary', 'secondary', ld(80.0, 40.0), True, HS, None, C3, near('secondary'))
role('on_secondary', 'secondary', mono(10.0, 100.0, 20.0, 100.0), False, 'secondary', None, C45)
role('secondary_container', 'secondary', lambda s, F: F.chroma_search(s) if s.fid else mono(30.0, 85.0, 30.0, 90.0)(s, F), True, HS, None, C1, near('secondary'))
role('on_secondary_container', 'secondary', lambda s, F: F.fg(F.tone('secondary_container', s), 4.5) if s.fid else ite(s.dark, 90.0, 10.0), False, 'secondary_container', None, C45)
role('tertiary', 'tertiary', mono(90.0, 25.0, 80.0, 40.0), True, HS, None, C3, near('tertiary'))
role('on_tertiary', 'tertiary', mono(10.0, 90.0, 20.0, 100.0), False, 'tertiary', None, C45)
role('tertiary_container', 'tertiary', lambda s, F: F.fixed_tone(s) if s.fid else mono(60.0, 49.0, 30.0, 90.0)(s, F), True, HS, None, C1, near('tertiary'))
role('on_tertiary_container', 'tertiary', lambda s, F: F.fg(F.tone('tertiary_container', s), 4.5) if s.fid else mono(0.0, 100.0, 90.0, 10.0)(s, F), False, 'tertiary_container', None, C45)
role('error', 'error', ld(80.0, 40.0), True, HS, None, C3, near('error'))
role('on_error', 'error', ld(20.0, 100.0), False, 'error', None, C45)
role('error_container', 'error', ld(30.0, 90.0), True, HS, None, C1, near('error'))
role('on_error_container', 'error', ld(90.0, 10.0), False, 'error_container', None, C45)
for p, m in (('primary', ((40.0, 90.0), (30.0, 80.0), (100.0, 10.0), (90.0, 30.0))), ('secondary', ((80.0, 90.0), (70.0, 80.0), (10.0, 10.0), (25.0, 30.0))),
             ('tertiary', ((40.0, 90.0), (30.0, 80.0), (100.0, 10.0), (90.0, 30.0)))):
    f = lambda v: (lambda s, F: v[0] if s.mono else v[1])
    role(p + '_fixed', p, f(m[0]), True, HS, None, C1, fixd(p))
    role(p + '_fixed_dim', p, f(m[1]), True, HS, None, C1, fixd(p))
    role('on_' + p + '_fixed', p, f(m[2]), False, p + '_fixed_dim', p + '_fixed', C45)
    role('on_' + p + '_fixed_variant', p, f(m[3]), False, p + '_fixed_dim', p + '_fixed', CV)


def rnd(x): return fstep('round', x)
def prefers(t): return lt(rnd(t), 60.0)


def foreground(F, bg, ratio):
    li, da = F.lighter_unsafe(bg, ratio), F.darker_unsafe(bg, ratio)
    lr, dr = F.ratio(li, bg), F.ratio(da, bg)
    negl = b_and(lt(fabs(fsub(lr, dr)), 0.1), lt(lr, ratio), lt(dr, ratio))
    return ite(prefers(bg), ite(b_or(ge(lr, ratio), ge(lr, dr), negl), li, da), ite(b_or(ge(dr, ratio), ge(dr, lr)), da, li))


def single(F, s, tone, isbg, back, curve_, back2=None):
    """back, back2: resolved tones"""
    want = curve(curve_, s.level) if isinstance(curve_, tuple) else curve_
    a = ite(ge(F.ratio(back, tone), want), tone, foreground(F, back, want))
    a = ite(lt(s.level, 0.0), foreground(F, back, want), a)
    if isbg is not False:
        z = b_and(isbg, ge(a, 50.0), lt(a, 60.0)) if isbg is not True else b_and(ge(a, 50.0), lt(a, 60.0))
        a = ite(z, ite(ge(F.ratio(49.0, back), want), 49.0, 60.0), a)
    if back2 is None: return a
    up, lo = fmax(back, back2), fmin(back, back2)
    ok = b_and(ge(F.ratio(up, a), want), ge(F.ratio(lo, a), want))
    li, da = F.lighter(up, want), F.darker(lo, want)
    light = ite(lt(li, 0.0), 100.0, li)
    hasl, hasd = ne(li, -1.0), ne(da, -1.0)
    dark = ite(b_and(hasl, b_not(hasd)), li, ite(lt(da, 0.0), 0.0, da))
    return ite(ok, a, ite(b_or(prefers(back), prefers(back2)), light, dark))


def paired(F, s, back, ta, tb, ca, cb, delta, pol, together, am_a):
    """resolved tone of member a (am_a) or b of a pair; ca, cb contrast wanted"""
    def go(a_near, am_a):
        (nt, nc), (ft, fc) = ((ta, ca), (tb, cb)) if a_near else ((tb, cb), (ta, ca))
        def start(t, c): return ite(lt(s.level, 0.0), foreground(F, back, c), ite(ge(F.ratio(back, t), c), t, foreground(F, back, c)))
        n0, f0 = start(nt, nc), start(ft, fc)
        def arm(e):
            n, f = n0, f0
            def good(n, f): return ge(M(fsub(f, n), e), delta)
            f2 = clampf(0.0, 100.0, A(n, M(delta, e)))
            n2 = clampf(0.0, 100.0, fsub(f2, M(delta, e)))
            g1, g2 = good(n, f), good(n, f2)
            n, f = ite(b_or(g1, g2), n, n2), ite(g1, f, f2)
            zn = b_and(ge(n, 50.0), lt(n, 60.0))
            zf = b_and(ge(f, 50.0), lt(f, 60.0))
            lim = 60.0 if e > 0 else 49.0
            fm = (fmax if e > 0 else fmin)(f, A(lim, M(delta, e)))
            both = b_or(zn, b_and(zf, together))
            if am_a == a_near: return ite(both, lim, n)
            return ite(both, fm, ite(zf, lim, f))
        return ite(s.dark, arm(1.0), arm(-1.0))
    if pol == 'Nearer': return go(True, am_a)
    if pol == 'Farther': return go(False, am_a)
    l, d = (True, False) if pol == 'Lighter' else (False, True)       # a is nearer in light / dark mode
    return ite(s.dark, go(d, am_a), go(l, am_a))


def resolve(F, s, name, memo=None):
    """tone of a role in a scheme"""
    memo = F.memo
    k = (name, id(s))
    if k in memo: return memo[k]
    if name == HS:
        r = memo[k] = ite(s.dark, resolve(F, s, 'surface_bright'), resolve(F, s, 'surface_dim'))
        return r
    r = R[name]
    if r.pair:
        a, b, delta, pol, tog = r.pair
        res = paired(F, s, resolve(F, s, r.back), R[a].tone(s, F), R[b].tone(s, F), curve(R[a].curve, s.level), curve(R[b].curve, s.level), delta, pol, tog, name == a)
    elif r.back is None: res = r.tone(s, F)
    else: res = single(F, s, r.tone(s, F), r.bg, resolve(F, s, r.back), r.curve, resolve(F, s, r.back2) if r.back2 else None)
    memo[k] = res
    return res
