"""CAM16, viewing conditions, solver, HCT."""
from frame import *
from env import *
import spec as S
from spec import *
from spec_cam import *
from props_utils import EQ, argb

VCF = ['background_y_to_white_point_y', 'aw', 'nbb', 'ncb', 'c', 'n_c', 'fl', 'f_lroot', 'z']
VCR = dict(background_y_to_white_point_y=(0.01, 1.0), aw=(5.0, 200.0), nbb=(0.6, 2.0), ncb=(0.6, 2.0), c=(0.5, 0.7), n_c=(0.8, 1.0), fl=(0.05, 4.0), f_lroot=(0.4, 1.5), z=(1.4, 2.5))


def symvc(p):
    """an arbitrary viewing condition: every derived factor an independent positive unknown"""
    v = {k: fvar('vc.' + k, *VCR[k]) for k in VCF}
    v['rgb_d'] = [fvar('vc.rgb_d%d' % i, 0.8, 1.2) for i in range(3)]
    v['white_point'] = [fvar('vc.wp%d' % i, 80, 120) for i in range(3)]
    v['adapting_luminance'] = fvar('vc.la', 0.1, 500); v['background_lstar'] = fvar('vc.bg', 0.1, 100); v['surround'] = fvar('vc.sur', 0, 2)
    v['discounting_illuminant'] = bvar('vc.disc')
    return v


def vcval(p, v):
    d = {k: Vec(x) if isinstance(x, list) else x for k, x in v.items()}
    d.setdefault('drgb_inverse', Vec([0.0, 0.0, 0.0]))
    return struct(p, 'ViewingConditions', d)


def Opt(x): return Agg(None, 0, ()) if x is None else Agg(None, 1, (x,))


def P10(c):
    c.rule(EQ)
    v = symvc(c.p)
    x, y, z = (fvar(n, 0.01, 110) for n in ('X', 'Y', 'Z'))
    mk = lambda I, st: [x, y, z, I.new(st, vcval(c.p, v))]
    c.expect('forward model from XYZ, any viewing conditions', 'cam_from_xyz_vc', mk, cam_from_xyz(x, y, z, v), panics=False)
    def turn():
        # the hue angle in double precision: the direction of the opponent pair is any angle, including ones just below 0
        th = fvar('direction', -math.pi, math.pi, specials=(0, -1e-20, -1e-17, -1e-16, -1e-15, math.pi, -math.pi, 1e-20))
        h = {p + 'atan2': (lambda I, st, args, ce: th) for p in ('std::f64::<impl f64>::', 'core::f64::<impl f64>::')}
        I = c.interp(h, ieee=True); st = State()
        r, st = I.run_root('cam_from_xyz_vc', mk(I, st), st)
        for q in list(I.panics):
            if not all(t.a[0] == 'direction' for k, _ in q[3].hist if type(k) is T for t in walk(k) if t.op == 'var'): I.panics.remove(q)
        c.check_panics('hue in double precision', 'cam_from_xyz_vc', I)
        if r is None: return c.violation('hue in double precision', c.loc('cam_from_xyz_vc'), 'never returns normally')
        hue = field(c.p, r, 'hue')
        if 'direction' not in {t.a[0] for t in walk(hue) if t.op == 'var'}: raise Unsupported('hue is not a function of atan2')
        c.inrange('hue within 0..360, below 360 in double precision', c.loc('cam_from_xyz_vc'), hue, 0.0, 360.0, hi_open=True)
    c.guard('hue in double precision', turn)
    a = argb()
    def lay(root, names, mk, spec): layered(c, '%s' % root, root, names, mk, spec)
    layered(c, 'from an ARGB colour: forward model of its XYZ', 'cam_from_int_vc', ['cu_xyz_from_argb', 'cam_from_xyz_vc'],
            lambda I, st: [a, I.new(st, vcval(c.p, v))],
            lambda E, I, st, A_: camdict(c.p, E.f(I, st, 'cam_from_xyz_vc', *(list(E.f(I, st, 'cu_xyz_from_argb', a).f) + [A_[1]]))))
    layered(c, 'default conditions when none are given', 'cam_from_int', ['cam_from_int_vc', 'vc_s_rgb'],
            lambda I, st: [a], lambda E, I, st, A_: camdict(c.p, E.f(I, st, 'cam_from_int_vc', a, I.new(st, stdvc(c, I, st)))), extra={}) if False else None
    s = std()
    def dflt():
        w, st, I = c.run('cam_from_int', [a])
        u, st2, I2 = c.run('cam_from_int_vc', lambda I, st: [a, I.new(st, vcval(c.p, s))])
        c.same('default conditions when none are given', c.loc('cam_from_int'), w, camdict(c.p, u), Ctx(), I, st)
    c.guard('default conditions', dflt)
    p, q = ({k: fvar('%s.%s' % (n, k), -200, 300) for k in ('hue', 'chroma', 'j', 'q', 'm', 's', 'jstar', 'astar', 'bstar')} for n in ('c1', 'c2'))
    d2 = 0.0
    for k in ('jstar', 'astar', 'bstar'): d2 = fadd(d2, fmul(fsub(p[k], q[k]), fsub(p[k], q[k])))
    c.expect('distance in CAM16-UCS', 'cam_distance', lambda I, st: [I.new(st, struct(c.p, 'Cam16', p)), I.new(st, struct(c.p, 'Cam16', q))], 1.41 * fpow(SQ(d2), 0.63))


def camdict(p, v): return {k: field(p, v, k) for k in field_names(p, v)}


def P11(c):
    c.rule(EQ)
    v = symvc(c.p)
    j, ch, h = fvar('J', 0, 110, specials=(0,)), fvar('C', 0, 150, specials=(0,)), fvar('H', 0, 360)
    js, as_, bs = fvar('Jstar', 0, 110), fvar('astar', -60, 60), fvar('bstar', -60, 60)
    vc = lambda I, st: I.new(st, vcval(c.p, v))
    c.expect('from lightness, chroma, hue', 'cam_from_jch_vc', lambda I, st: [j, ch, h, vc(I, st)], cam_from_jch(j, ch, h, v))
    c.expect('from UCS coordinates', 'cam_from_ucs_vc', lambda I, st: [js, as_, bs, vc(I, st)], cam_from_ucs(js, as_, bs, v))
    s = std()
    c.expect('from lightness, chroma, hue: default conditions', 'cam_from_jch', [j, ch, h], cam_from_jch(j, ch, h, s))
    c.expect('from UCS coordinates: default conditions', 'cam_from_ucs', [js, as_, bs], cam_from_ucs(js, as_, bs, s))
    rest = {k: fvar('cam.' + k, 0, 100) for k in ('q', 'm', 's', 'jstar', 'astar', 'bstar')}
    cam = lambda I, st: I.new(st, struct(c.p, 'Cam16', dict(rest, hue=h, chroma=ch, j=j)))
    X = cam_xyz(h, ch, j, v)
    c.expect('inverse model to XYZ, any viewing conditions', 'cam_xyz_vc', lambda I, st: [cam(I, st), vc(I, st)], X)
    layered(c, 'viewed colour is the ARGB of the inverse model', 'cam_viewed', ['cu_argb_from_xyz'], lambda I, st: [cam(I, st), vc(I, st)],
            lambda E, I, st, A_: E.f(I, st, 'cu_argb_from_xyz', *X))
    Xs = cam_xyz(h, ch, j, s)
    layered(c, 'to ARGB: default conditions', 'cam_to_int', ['cu_argb_from_xyz'], lambda I, st: [cam(I, st)],
            lambda E, I, st, A_: E.f(I, st, 'cu_argb_from_xyz', *Xs))
    def matinv():
        err = max(abs(sum(CAT[i][k] * CATI[k][l] for k in range(3)) - (1.0 if i == l else 0.0)) for i in range(3) for l in range(3))
        c.require('oracle: forward and inverse cone matrices are mutually inverse', err < 1e-6, 'oracle', 'error %g' % err)
    matinv()


def P35(c):
    c.rule(EQ)
    wp = [fvar('wp%d' % i, 80, 120) for i in range(3)]
    la, bg, sur, d = fvar('la', -10, 1000, specials=(0,)), fvar('bg', -5, 100, specials=(0, 0.1, 50)), fvar('sur', 0, 2, specials=(1,)), bvar('disc')
    c.expect('all factors from explicit parameters', 'vc_make', lambda I, st: [Opt(Vec(wp)), Opt(la), Opt(bg), Opt(sur), Opt(d)], vc_make(wp, la, bg, sur, d))
    c.expect('defaults', 'vc_make', lambda I, st: [Opt(None)] * 5, std())
    c.expect('sRGB conditions are the defaults', 'vc_s_rgb', [], std())
    c.expect('standard conditions are the defaults', 'vc_standard', [], std())
    for i, nm in enumerate(('white point', 'adapting luminance', 'background', 'surround', 'discounting')):
        full = [wp, la, bg, sur, d]
        dfl = [D65, -1.0, 50.0, 2.0, False]
        a = list(full); a[i] = dfl[i]
        def mk(I, st, i=i): return [Opt(None) if k == i else Opt(Vec(x) if isinstance(x, list) else x) for k, x in enumerate(full)]
        c.expect('default %s alone' % nm, 'vc_make', mk, vc_make(*a))


def getters(I, s, v):
    """an Hct seen through its public accessors"""
    r = v if type(v) is Ref else I.new(s, v)
    return [I.run_root(n, [r], s)[0] for n in ('hct_get_hue', 'hct_get_chroma', 'hct_get_tone', 'hct_to_int')]


HN = ['cam_from_int', 'cu_lstar_from_argb', 'hs_solve_to_int']


def hct_of(E, I, st, a):
    """what an Hct of colour a must report"""
    c = E.f(I, st, 'cam_from_int', a)
    return [field(I.p, c, 'hue'), field(I.p, c, 'chroma'), E.f(I, st, 'cu_lstar_from_argb', a), a]


def P12(c):
    c.rule(EQ)
    c.rule('every constructor and every mutator leaves hue, chroma and tone equal to the measurements of the ARGB value the object reports')
    a = argb(); q = argb('argb2')
    h, ch, t, w = fvar('hue', -1000, 1000), fvar('chroma', -50, 300), fvar('tone', -50, 150), fvar('w', -1000, 1000)
    G = lambda I, s, v, A_: getters(I, s, v)
    for n in ('hct_new', 'hct_from_int'):
        layered(c, '%s measures its colour' % n, n, HN, lambda I, st: [a], lambda E, I, st, A_: hct_of(E, I, st, a), view=G)
    layered(c, 'from hue, chroma, tone: the solved colour, measured', 'hct_from', HN, lambda I, st: [h, ch, t],
            lambda E, I, st, A_: hct_of(E, I, st, E.f(I, st, 'hs_solve_to_int', h, ch, t)), view=G)
    def mk(I, st):
        return [I.new(st, I.run_root('hct_from_int', [a], st)[0]), w]
    for k, n in enumerate(('hct_set_hue', 'hct_set_chroma', 'hct_set_tone')):
        def sp(E, I, st, A_, k=k):
            o = hct_of(E, I, st, a)[:3]
            o[k] = w
            return hct_of(E, I, st, E.f(I, st, 'hs_solve_to_int', *o))
        layered(c, '%s: re-solved with the other two kept, measured again' % n, n, HN, mk, sp, view=lambda I, s, v, A_: getters(I, s, A_[0]))
    # two mutations in a row, from any construction: the state is a function of the reported colour only
    def mk2(I, st): return [I.new(st, I.run_root('hct_from', [h, ch, t], st)[0]), w]
    def sp2(E, I, st, A_):
        o = hct_of(E, I, st, E.f(I, st, 'hs_solve_to_int', h, ch, t))[:3]
        o[2] = w
        return hct_of(E, I, st, E.f(I, st, 'hs_solve_to_int', *o))
    layered(c, 'mutating a requested colour starts from what it really is', 'hct_set_tone', HN, mk2, sp2, view=lambda I, s, v, A_: getters(I, s, A_[0]))
    from props_pal import text_of
    text_of(c, 'text: hue, chroma and tone rounded to whole numbers', 'hct_to_string', lambda I, st: mk(I, st)[:1],
            lambda E, I, st: [y for n, x in zip(('H', ' C', ' T'), hct_of(E, I, st, a)[:3]) for y in (n, fstep('round', x))], lambda: Env(c, HN, True))
    v = symvc(c.p)
    def mkv(I, st): return [mk(I, st)[0], I.new(st, vcval(c.p, v))]
    def spv(E, I, st, A_):
        cam = E.f(I, st, 'cam_from_int', a)
        xyz = E.f(I, st, 'cam_xyz_vc', I.new(st, cam), A_[1])
        r = E.f(I, st, 'cam_from_xyz_vc', *(list(xyz.f) + [I.new(st, vcval(c.p, std()))]))
        return hct_of(E, I, st, E.f(I, st, 'hs_solve_to_int', field(c.p, r, 'hue'), field(c.p, r, 'chroma'), E.f(I, st, 'cu_lstar_from_y', xyz.f[1])))
    layered(c, 'in other viewing conditions', 'hct_in_vc', HN + ['cam_xyz_vc', 'cam_from_xyz_vc', 'cu_lstar_from_y'], mkv, spv, view=G)
    layered(c, 'solving to an appearance is the appearance of the solved colour', 'hs_solve_to_cam', HN, lambda I, st: [h, ch, t],
            lambda E, I, st, A_: camdict(c.p, E.f(I, st, 'cam_from_int', E.f(I, st, 'hs_solve_to_int', h, ch, t))))


def P13(c):
    c.rule(EQ)
    c.rule('constant tables reached by the solver: entry i is the linear intensity at channel value i + 1/2, increasing')
    h, ch, t = fvar('hue', -720, 720), fvar('chroma', 0.0001, 200), fvar('tone', 0.0001, 99.9999)
    sp = solve(h, ch, t)
    def main():
        v, st, I = c.run('hs_solve_to_int', [h, ch, t])
        c.check_panics('solver', 'hs_solve_to_int', I)
        tabs = 0
        for x in walk(v):
            if x.op != 'sel': continue
        names = {x.a[0] for x in walk(v) if x.op == 'sel'}
        for n in sorted(names):
            tab = TT.TABLES[n]
            if len(tab) < 200: continue
            bad = [i for i in range(min(255, len(tab))) if not abs(tab[i] - CP[i]) <= 1e-9 * CP[i]]
            if len(bad) > 25: continue       # some other table
            tabs += 1
            c.require('boundary table of %d entries' % len(tab), not bad, c.loc('hs_solve_to_int'),
                      'entry %s is %s, the boundary is at %s' % (bad[:3], [tab[i] for i in bad[:3]], [CP[i] for i in bad[:3]]))
        c.same('Newton search on lightness, then bisection of the gamut boundary', c.loc('hs_solve_to_int'), v, sp, Ctx(), I, st, secs=30.0 if c.tier == 'quick' else 300.0, n=400 if c.tier == 'quick' else 5000)
    c.guard('solver', main)
    cs, ts = fvar('chroma_small', -10, 0.00009999, specials=(0,)), fvar('tone_any', 0, 100, specials=(0, 100, 50))
    tl, th, ca = fvar('tone_low', -50, 0.00009999, specials=(0,)), fvar('tone_high', 99.99991, 200, specials=(100,)), fvar('chroma_any', 0, 200)
    for nm, args in (('no chroma', [h, cs, ts]), ('black', [h, ca, tl]), ('white', [h, ca, th])):
        layered(c, 'grey of the requested tone: %s' % nm, 'hs_solve_to_int', ['cu_argb_from_lstar'], lambda I, st, args=args: args,
                lambda E, I, st, A_: E.f(I, st, 'cu_argb_from_lstar', A_[2]))


def P09(c):
    """constants: mutual consistency"""
    pass
del P09


def P14(c):
    c.rule(EQ)
    a, b = fvar('tone_a', -50, 150, specials=(0, 100)), fvar('tone_b', -50, 150, specials=(0, 100))
    t, r = fvar('tone', -20, 120, specials=(0, 100)), fvar('ratio', 1, 21, specials=(1, 21, 4.5, 3, 7))
    def y(I, E, st, x): return E.f(I, st, 'cu_y_from_lstar', x)
    def ratio(y1, y2): return D(A(fmax(y1, y2), 5.0), A(fmin(y1, y2), 5.0))
    YN = ['cu_y_from_lstar', 'cu_lstar_from_y']
    ya, yb = y_from_lstar(clampf(0.0, 100.0, a)), y_from_lstar(clampf(0.0, 100.0, b))
    c.expect('ratio of two tones', 'ct_ratio_of_tones', [a, b], ratio(ya, yb))
    def sides(up):
        y0 = y_from_lstar(t)
        y1 = fsub(M(r, A(y0, 5.0)), 5.0) if up else fsub(D(A(y0, 5.0), r), 5.0)
        real = ratio(y1, y0)
        miss = b_and(lt(real, r), gt(fabs(fsub(real, r)), 0.04))
        res = A(lstar_from_y(y1), 0.4 if up else -0.4)
        bad = b_or(lt(t, 0.0), gt(t, 100.0), miss, lt(res, 0.0), gt(res, 100.0))
        return bad, res
    for up, safe, uns, dflt in ((True, 'ct_lighter', 'ct_lighter_unsafe', 100.0), (False, 'ct_darker', 'ct_darker_unsafe', 0.0)):
        bad, res = sides(up)
        c.expect('%s tone meeting the ratio, or -1' % safe[3:], safe, [t, r], ite(bad, -1.0, res))
        c.expect('%s: the extreme tone when unreachable' % uns[3:], uns, [t, r], ite(bad, dflt, res))
        def rng(root=uns):
            v, st, I = c.run(root, [t, r])
            c.inrange('%s stays within the tone range' % root[3:], c.loc(root), v, 0.0, 100.0)
        c.guard('range', rng)
    def sym():
        v, st, I = c.run('ct_ratio_of_tones', [a, b])
        u, _, _ = c.run('ct_ratio_of_tones', [b, a])
        c.same('ratio is symmetric', c.loc('ct_ratio_of_tones'), v, u, Ctx(), I, st)
        c.inrange('ratio lies in 1..21', c.loc('ct_ratio_of_tones'), v, 1.0 - 1e-12, 21.0 + 1e-9)
    c.guard('symmetric', sym)


def P15(c):
    c.rule(EQ)
    k = [fvar('curve.' + n, 1, 21) for n in ('low', 'normal', 'medium', 'high')]
    l = fvar('level', -3, 3, specials=(-1, 0, 0.5, 1))
    def lerp(a, b, t): return A(M(fsub(1.0, t), a), M(t, b))
    sp = ite(le(l, -1.0), k[0], ite(lt(l, 0.0), lerp(k[0], k[1], A(l, 1.0)), ite(lt(l, 0.5), lerp(k[1], k[2], M(l, 2.0)), ite(lt(l, 1.0), lerp(k[2], k[3], M(fsub(l, 0.5), 2.0)), k[3]))))
    def mk(I, st): return [I.new(st, I.run_root('cc_new', list(k), st)[0]), l]
    c.expect('piecewise linear through the four levels', 'cc_get', mk, sp)
    for lv, want in ((-1.0, 0), (0.0, 1), (0.5, 2), (1.0, 3), (-7.0, 0), (9.0, 3)):
        def mkl(I, st, lv=lv): return [I.new(st, I.run_root('cc_new', list(k), st)[0]), lv]
        c.expect('value at level %g' % lv, 'cc_get', mkl, k[want])


def P30(c):
    c.rule(EQ)
    a, b, t = argb('design'), argb('source'), fvar('amount', 0, 1, specials=(0, 1))
    HNB = HN + ['mu_difference_degrees', 'mu_rotation_direction', 'mu_sanitize_degrees_double']
    def h(E, I, st, x): return field(c.p, E.f(I, st, 'cam_from_int', x), 'hue')
    def harm(E, I, st, A_):
        x, y = hct_of(E, I, st, a), hct_of(E, I, st, b)
        rot = fmin(M(0.5, E.f(I, st, 'mu_difference_degrees', x[0], y[0])), 15.0)
        hue = E.f(I, st, 'mu_sanitize_degrees_double', A(x[0], M(rot, E.f(I, st, 'mu_rotation_direction', x[0], y[0]))))
        return E.f(I, st, 'hs_solve_to_int', hue, x[1], x[2])
    layered(c, 'harmonize: at most half way and at most 15 degrees towards the source, chroma and tone kept', 'bl_harmonize', HNB, lambda I, st: [a, b], harm)
    def harm0(E, I, st, A_):
        x, y = hct_of(E, I, st, a), hct_of(E, I, st, b)
        rot = fmin(M(0.5, difference(x[0], y[0])), 15.0)
        return E.f(I, st, 'hs_solve_to_int', sanitize(A(x[0], M(rot, rotdir(x[0], y[0])))), x[1], x[2])
    layered(c, 'harmonize: shortest way round', 'bl_harmonize', HN, lambda I, st: [a, b], harm0)
    CN = HN + ['cam_from_ucs', 'cam_to_int']
    def ucs(E, I, st, A_):
        p, q = E.f(I, st, 'cam_from_int', a), E.f(I, st, 'cam_from_int', b)
        v = [A(field(c.p, p, k), M(fsub(field(c.p, q, k), field(c.p, p, k)), t)) for k in ('jstar', 'astar', 'bstar')]
        return E.f(I, st, 'cam_to_int', I.new(st, E.f(I, st, 'cam_from_ucs', *v)))
    layered(c, 'UCS blend: linear in all three coordinates', 'bl_cam16_ucs', CN, lambda I, st: [a, b, t], ucs)
    def hh(E, I, st, A_):
        u = E.f(I, st, 'bl_cam16_ucs', a, b, t)
        return E.f(I, st, 'hs_solve_to_int', h(E, I, st, u), field(c.p, E.f(I, st, 'cam_from_int', a), 'chroma'), E.f(I, st, 'cu_lstar_from_argb', a))
    layered(c, 'hue blend: hue of the UCS blend, chroma and tone of the original', 'bl_hct_hue', HN + ['bl_cam16_ucs'], lambda I, st: [a, b, t], hh)


def rnd(x): return fstep('round', x)


def disliked(o):
    return b_and(ge(rnd(o[0]), 90.0), le(rnd(o[0]), 111.0), gt(rnd(o[1]), 16.0), lt(rnd(o[2]), 65.0))


def P31(c):
    c.rule(EQ)
    a = argb()
    def mk(I, st): return [I.new(st, I.run_root('hct_from_int', [a], st)[0])]
    layered(c, 'disliked: dark, not neutral, yellow-green', 'dl_is_disliked', HN, mk, lambda E, I, st, A_: disliked(hct_of(E, I, st, a)))
    def fix(E, I, st, A_):
        o = hct_of(E, I, st, a)
        n = hct_of(E, I, st, E.f(I, st, 'hs_solve_to_int', o[0], o[1], 70.0))
        d = disliked(o)
        return [ite(d, y, x) for x, y in zip(o, n)]
    layered(c, 'fixed to tone 70 exactly when disliked, else unchanged', 'dl_fix', HN, mk, fix, view=lambda I, s, v, A_: getters(I, s, v))
