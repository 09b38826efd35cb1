"""CAM16, viewing conditions and the HCT solver: expected value graphs."""
import math
from frame import *
from spec import *
PI = math.pi

def A(x, y): return fadd(x, y)
def M(*xs):
    r = xs[0]
    for x in xs[1:]: r = fmul(r, x)
    return r
def D(x, y): return fdiv(x, y)
def P(x, y): return fpow(x, y)
def SQ(x): return funary('sqrt', x)
def COS(x): return funary('cos', x)
def SIN(x): return funary('sin', x)
def LN(x): return funary('ln', x)
def EXP(x): return funary('exp', x)
def SUM(*xs):
    r = 0.0
    for x in xs: r = fadd(r, x)
    return r

CAT = [[0.401288, 0.650173, -0.051461], [-0.250268, 1.204414, 0.045854], [-0.002079, 0.048952, 0.953127]]
CATI = [[1.86206786, -1.01125463, 0.14918677], [0.38752654, 0.62144744, -0.00897398], [-0.01584150, -0.03412294, 1.04996444]]


def vc_make(wp, la, bg, sur, disc):
    """arguments already defaulted"""
    la = ite(gt(la, 0.0), la, 200.0 / PI * y_from_lstar(50.0) / 100.0)
    bg = fmax(0.1, bg)
    w = mat(CAT, wp)
    f = A(0.8, D(sur, 10.0))
    def lerp(a, b, t): return A(M(fsub(1.0, t), a), M(t, b))
    c = ite(ge(f, 0.9), lerp(0.59, 0.69, M(fsub(f, 0.9), 10.0)), lerp(0.525, 0.59, M(fsub(f, 0.8), 10.0)))
    d = ite(disc, 1.0, M(f, fsub(1.0, M(1 / 3.6, EXP(D(fsub(fneg(la) if is_t(la) else -la, 42.0), 92.0))))))
    d = ite(gt(d, 1.0), 1.0, ite(lt(d, 0.0), 0.0, d))
    rgbd = [fsub(A(M(d, D(100.0, x)), 1.0), d) for x in w]
    k = D(1.0, A(M(5.0, la), 1.0))
    k4 = M(k, k, k, k)
    k4f = fsub(1.0, k4)
    fl_ = A(M(k4, la), M(0.1, k4f, k4f, P(M(5.0, la), 1 / 3)))
    n = D(y_from_lstar(bg), wp[1])
    z = A(1.48, SQ(n))
    nbb = D(0.725, P(n, 0.2))
    af = [P(D(M(fl_, a, b), 100.0), 0.42) for a, b in zip(rgbd, w)]
    ra = [D(M(400.0, a), A(a, 27.13)) for a in af]
    aw = M(D(SUM(M(40.0, ra[0]), M(20.0, ra[1]), ra[2]), 20.0), nbb)
    return dict(white_point=list(wp), adapting_luminance=la, background_lstar=bg, surround=sur, discounting_illuminant=disc,
                background_y_to_white_point_y=n, aw=aw, nbb=nbb, ncb=nbb, c=c, n_c=f, rgb_d=rgbd, fl=fl_, f_lroot=P(fl_, 0.25), z=z)


def std(): return vc_make(D65, -1.0, 50.0, 2.0, False)


def sgnmul(x, y): return M(signumf(x), y)


def adapt(comp):
    af = P(fabs(comp), 0.42)
    return D(M(signumf(comp), 400.0, af), A(af, 27.13))


def cam_fields(hue, c, j, q, m, s):
    hr = D(M(hue, PI), 180.0)
    jstar = D(M(1.7, j), A(1.0, M(0.007, j)))
    mstar = D(LN(A(1.0, M(0.0228, m))), 0.0228)
    return dict(hue=hue, chroma=c, j=j, q=q, m=m, s=s, jstar=jstar, astar=M(mstar, COS(hr)), bstar=M(mstar, SIN(hr)))


def cam_from_xyz(x, y, z, v):
    rgb = mat(CAT, [x, y, z])
    dd = [M(a, b) for a, b in zip(v['rgb_d'], rgb)]
    aa = []
    for d in dd:
        af = P(D(M(v['fl'], fabs(d)), 100.0), 0.42)
        aa.append(D(M(signumf(d), 400.0, af), A(af, 27.13)))
    r, g, b_ = aa
    a = D(SUM(M(11.0, r), M(-12.0, g), b_), 11.0)
    b = D(SUM(r, g, M(-2.0, b_)), 9.0)
    u = D(SUM(M(20.0, r), M(20.0, g), M(21.0, b_)), 20.0)
    p2 = D(SUM(M(40.0, r), M(20.0, g), b_), 20.0)
    deg = D(M(fatan2(b, a), 180.0), PI)
    hue = ite(lt(deg, 0.0), A(deg, 360.0), deg)
    ac = M(p2, v['nbb'])
    j = M(100.0, P(D(ac, v['aw']), M(v['c'], v['z'])))
    q = M(D(4.0, v['c']), SQ(D(j, 100.0)), A(v['aw'], 4.0), v['f_lroot'])
    hp = ite(lt(hue, 20.14), A(hue, 360.0), hue)
    eh = M(0.25, A(COS(A(D(M(hp, PI), 180.0), 2.0)), 3.8))
    p1 = M(50000.0 / 13.0, eh, v['n_c'], v['ncb'])
    t = D(M(p1, SQ(A(M(a, a), M(b, b)))), A(u, 0.305))
    alpha = M(P(t, 0.9), P(fsub(1.64, P(0.29, v['background_y_to_white_point_y'])), 0.73))
    c = M(alpha, SQ(D(j, 100.0)))
    m = M(c, v['f_lroot'])
    s = M(50.0, SQ(D(M(alpha, v['c']), A(v['aw'], 4.0))))
    return cam_fields(hue, c, j, q, m, s)


def cam_from_jch(j, c, h, v):
    q = M(D(4.0, v['c']), SQ(D(j, 100.0)), A(v['aw'], 4.0), v['f_lroot'])
    m = M(c, v['f_lroot'])
    alpha = D(c, SQ(D(j, 100.0)))
    s = M(50.0, SQ(D(M(alpha, v['c']), A(v['aw'], 4.0))))
    return cam_fields(h, c, j, q, m, s)


def cam_from_ucs(js, as_, bs, v):
    m = SQ(A(M(as_, as_), M(bs, bs)))
    m = D(fsub(EXP(M(m, 0.0228)), 1.0), 0.0228)
    c = D(m, v['f_lroot'])
    h = M(fatan2(bs, as_), 180.0 / PI)
    h = ite(lt(h, 0.0), A(h, 360.0), h)
    j = D(js, fsub(1.0, M(fsub(js, 100.0), 0.007)))
    return cam_from_jch(j, c, h, v)


def unadapt_base(x):
    a = fabs(x)
    return fmax(0.0, D(M(27.13, a), fsub(400.0, a)))


def cam_xyz(h, c, j, v):
    alpha = ite(b_or(eq(c, 0.0), eq(j, 0.0)), 0.0, D(c, SQ(D(j, 100.0))))
    t = P(D(alpha, P(fsub(1.64, P(0.29, v['background_y_to_white_point_y'])), 0.73)), 1 / 0.9)
    hr = D(M(h, PI), 180.0)
    eh = M(0.25, A(COS(A(hr, 2.0)), 3.8))
    ac = M(v['aw'], P(D(j, 100.0), D(D(1.0, v['c']), v['z'])))
    p1 = M(eh, 50000.0 / 13.0, v['n_c'], v['ncb'])
    p2 = D(ac, v['nbb'])
    hs, hc = SIN(hr), COS(hr)
    gam = D(M(23.0, A(p2, 0.305), t), SUM(M(23.0, p1), M(11.0, t, hc), M(108.0, t, hs)))
    a, b = M(gam, hc), M(gam, hs)
    R = [D(SUM(M(460.0, p2), M(k, a), M(l, b)), 1403.0) for k, l in ((451.0, 288.0), (-891.0, -261.0), (-220.0, -6300.0))]
    C = [M(signumf(x), D(100.0, v['fl']), P(unadapt_base(x), 1 / 0.42)) for x in R]
    F = [D(x, w) for x, w in zip(C, v['rgb_d'])]
    return mat(CATI, F)


# ------------------------------------------------------------------ solver

SD = [[0.001200833568784504, 0.002389694492170889, 0.0002795742885861124],
      [0.0005891086651375999, 0.0029785502573438758, 0.0003270666104008398],
      [0.00010146692491640572, 0.0005364214359186694, 0.0032979401770712076]]
SDI = [[1373.2198709594231, -1100.4251190754821, -7.278681089101213],
       [-271.815969077903, 559.6580465940733, -32.46047482791194],
       [1.9622899599665666, -57.173814538844006, 308.7233197812385]]
YK = [0.2126, 0.7152, 0.0722]


def critical_plane(i):
    n = (i + 0.5) / 255.0
    return n / 12.92 * 100.0 if n <= 0.040449936 else math.pow((n + 0.055) / 1.055, 2.4) * 100.0


def sanitize_rad(a): return frem_(A(a, PI * 8.0), PI * 2.0)
def cyc(a, b, c): return lt(sanitize_rad(fsub(b, a)), sanitize_rad(fsub(c, a)))


def hue_of(lin):
    s = mat(SD, lin)
    r, g, b_ = [adapt(x) for x in s]
    return fatan2(D(SUM(r, g, M(-2.0, b_)), 9.0), D(SUM(M(11.0, r), M(-12.0, g), b_), 11.0))


def unadapt(x): return M(signumf(x), P(unadapt_base(x), 1 / 0.42))


def find_by_j(hr, chroma, y):
    v = std()
    coeff = 1.0 / math.pow(1.64 - math.pow(0.29, v['background_y_to_white_point_y']), 0.73)
    eh = M(0.25, A(COS(A(hr, 2.0)), 3.8))
    p1 = M(eh, 50000.0 / 13.0, v['n_c'], v['ncb'])
    hs, hc = SIN(hr), COS(hr)
    def it(i, j):
        jn = D(j, 100.0)
        alpha = ite(b_or(eq(chroma, 0.0), eq(j, 0.0)), 0.0, D(chroma, SQ(jn)))
        t = P(M(alpha, coeff), 1 / 0.9)
        ac = M(v['aw'], P(jn, 1.0 / v['c'] / v['z']))
        p2 = D(ac, v['nbb'])
        gam = D(M(23.0, A(p2, 0.305), t), SUM(M(23.0, p1), M(11.0, t, hc), M(108.0, t, hs)))
        a, b = M(gam, hc), M(gam, hs)
        R = [D(SUM(M(460.0, p2), M(k, a), M(l, b)), 1403.0) for k, l in ((451.0, 288.0), (-891.0, -261.0), (-220.0, -6300.0))]
        lin = mat(SDI, [unadapt(x) for x in R])
        fn = dot(YK, lin)
        neg = b_or(*[lt(x, 0.0) for x in lin])
        stop = True if i == 4 else lt(fabs(fsub(fn, y)), 0.002)
        big = b_or(*[gt(x, 100.01) for x in lin])
        done = ite(big, 0, argb_from_lin(lin))
        rest = done if i == 4 else ite(stop, done, it(i + 1, fsub(j, D(M(fsub(fn, y), j), M(2.0, fn)))))
        return ite(neg, 0, ite(le(fn, 0.0), 0, rest))
    return it(0, M(SQ(y), 11.0))


def itev(c, a, b): return [ite(c, x, y) for x, y in zip(a, b)]


def nth_vertex(y, n):
    """(exists, point)"""
    ca = 0.0 if n % 4 <= 1 else 100.0
    cb = 0.0 if n % 2 == 0 else 100.0
    ax = n // 4            # solved axis: 0 R (G=ca,B=cb), 1 G (B=ca,R=cb), 2 B (R=ca,G=cb)
    pt = [None] * 3
    pt[(ax + 1) % 3] = ca; pt[(ax + 2) % 3] = cb
    s = y
    for k in range(3):
        if k != ax: s = fsub(s, pt[k] * YK[k])
    pt[ax] = D(s, YK[ax])
    ok = b_and(ge(pt[ax], 0.0), le(pt[ax], 100.0))
    return ok, pt


def segment(y, th):
    L = [-1.0] * 3; R = [-1.0] * 3; lh = rh = 0.0
    init = False; uncut = True
    for n in range(12):
        ok, m = nth_vertex(y, n)
        mh = hue_of(m)
        first = b_and(ok, b_not(init))
        cut = b_and(ok, init, b_or(uncut, cyc(lh, mh, rh)))
        right = b_and(cut, cyc(lh, th, mh))
        left = b_and(cut, b_not(cyc(lh, th, mh)))
        tl, tr = b_or(first, left), b_or(first, right)
        L, R = itev(tl, m, L), itev(tr, m, R)
        lh, rh = ite(tl, mh, lh), ite(tr, mh, rh)
        uncut = b_and(uncut, b_not(cut))
        init = b_or(init, ok)
    return L, R


CP = [critical_plane(i) for i in range(255)]


def limit(y, th):
    L, R = segment(y, th)
    lh = hue_of(L)
    for ax in range(3):
        def td(x): return M(delin(x), 255.0)
        up = lt(L[ax], R[ax])
        differ = ne(L[ax], R[ax])
        below = lambda x: f2i(fstep('floor', fsub(td(x), 0.5)), *I64)
        above = lambda x: f2i(fstep('ceil', fsub(td(x), 0.5)), *I64)
        lp = ite(up, below(L[ax]), above(L[ax]))
        rp = ite(up, above(R[ax]), below(R[ax]))
        live = differ
        for i in range(8):
            live = b_and(live, gt(iabs(isub(rp, lp)), 1))
            mp = f2i(fstep('floor', D(i2f(iadd(lp, rp)), 2.0)), *I64)
            co = select('spec:cp', mp, CP) if is_t(mp) else CP[mp]
            t = D(fsub(co, L[ax]), fsub(R[ax], L[ax]))
            m = [A(a, M(fsub(b, a), t)) for a, b in zip(L, R)]
            mh = hue_of(m)
            r = b_and(live, cyc(lh, th, mh)); l = b_and(live, b_not(cyc(lh, th, mh)))
            L, R = itev(l, m, L), itev(r, m, R)
            lh = ite(l, mh, lh)
            lp, rp = ite(l, mp, lp), ite(r, mp, rp)
    return [D(A(a, b), 2.0) for a, b in zip(L, R)]


def solve(h, c, t):
    hr = M(D(sanitize(h), 180.0), PI)
    y = y_from_lstar(t)
    ex = find_by_j(hr, c, y)
    return ite(b_or(lt(c, 0.0001), lt(t, 0.0001), gt(t, 99.9999)), argb_from_lstar(t), ite(ne(ex, 0), ex, argb_from_lin(limit(y, hr))))
