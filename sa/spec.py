"""The expected behaviour, written independently as value graphs (or plain numbers)."""
import math
from frame import *
PI = math.pi

S2X = [[0.41233895, 0.35762064, 0.18051042], [0.2126, 0.7152, 0.0722], [0.01932141, 0.11916382, 0.95034478]]
X2S = [[3.2413774792388685, -1.5376652402851851, -0.49885366846268053],
       [-0.9691452513005321, 1.8758853451067872, 0.04156585616912061],
       [0.05562093689691305, -0.20395524564742123, 1.0571799111220335]]
D65 = [95.047, 100.0, 108.883]
E = 216.0 / 24389.0
KAPPA = 24389.0 / 27.0
I64 = (-(1 << 63), (1 << 63) - 1)


def chan(argb, sh): return iand(shr(argb, sh), 255)
def pack(r, g, b): return iadd(iadd(imul(r, 65536), imul(g, 256)), iadd(b, 0xFF000000))
def sqrt(x): return funary('sqrt', x)
def fl(x): return i2f(x)
def cbrt(x): return fpow(x, 1.0 / 3.0)


def linearized(c):
    n = fdiv(i2f(c), 255.0)
    return ite(le(n, 0.040449936), n / 12.92 * 100.0, fpow((n + 0.055) / 1.055, 2.4) * 100.0)


def delin(c):
    n = fdiv(c, 100.0)
    return ite(le(n, 0.0031308), n * 12.92, fpow(n, 1 / 2.4) * 1.055 - 0.055)


def clampi(lo, hi, x): return ite(lt(x, lo), lo, ite(gt(x, hi), hi, x))
def clampf(lo, hi, x): return ite(lt(x, lo), lo, ite(gt(x, hi), hi, x))


def delinearized(c): return clampi(0, 255, f2i(fstep('round', delin(c) * 255.0), *I64))


def lab_f(t): return ite(gt(t, E), cbrt(t), (fmul(t, KAPPA) + 16.0) / 116.0 if is_t(t) else (t * KAPPA + 16) / 116)


def lab_invf(ft):
    c = fmul(fmul(ft, ft), ft)
    return ite(gt(c, E), c, fdiv(fsub(fmul(ft, 116.0), 16.0), KAPPA))


def y_from_lstar(l): return fmul(lab_invf(fdiv(fadd(l, 16.0), 116.0)), 100.0)
def lstar_from_y(y): return fsub(fmul(lab_f(fdiv(y, 100.0)), 116.0), 16.0)


def dot(row, v):
    s = 0.0
    for a, b in zip(row, v): s = fadd(s, fmul(a, b))
    return s


def mat(m, v): return [dot(r, v) for r in m]
def lin_of(argb): return [linearized(chan(argb, s)) for s in (16, 8, 0)]
def xyz_from_argb(argb): return mat(S2X, lin_of(argb))
def argb_from_lin(v): return pack(*[delinearized(x) for x in v])
def argb_from_xyz(x, y, z): return argb_from_lin(mat(X2S, [x, y, z]))


def lab_from_argb(argb):
    f = [lab_f(fdiv(v, w)) for v, w in zip(xyz_from_argb(argb), D65)]
    return [f[1] * 116.0 - 16.0, (f[0] - f[1]) * 500.0, (f[1] - f[2]) * 200.0]


def argb_from_lab(l, a, b):
    fy = (l + 16.0) / 116.0
    fx = fy + a / 500.0
    fz = fy - b / 200.0
    return argb_from_xyz(*[lab_invf(f) * w for f, w in zip((fx, fy, fz), D65)])


def lstar_from_argb(argb): return lstar_from_y(xyz_from_argb(argb)[1])


def argb_from_lstar(l):
    c = delinearized(y_from_lstar(l))
    return pack(c, c, c)


def sanitize(d):
    r = frem_(d, 360.0)
    return ite(lt(r, 0.0), r + 360.0, r)


def signumf(x): return ite(lt(x, 0.0), -1.0, ite(eq(x, 0.0), 0.0, 1.0))


def difference(a, b):
    d = fabs(fsub(a, b))
    return ite(gt(d, 180.0), fsub(360.0, d), d)


def rotdir(a, b): return ite(le(sanitize(fsub(b, a)), 180.0), 1.0, -1.0)
