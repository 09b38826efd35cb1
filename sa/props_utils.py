"""Colour conversion, numeric helpers."""
from frame import *
from env import *
import spec as S
from spec import *

EQ = 'the value graph computed by the function equals the defining formula on its whole domain (value numbering over the reals; gates split; disagreements concretised)'


def argb(name='argb'): return ivar(name, 0, 0xFFFFFFFF)
def anyint(name): return ivar(name, -(1 << 31), (1 << 33))


def P01(c):
    c.rule(EQ)
    r, g, b = (ivar(n, -100000, 100000, specials=(0, 255, 256, -1, 127, 128)) for n in ('red', 'green', 'blue'))
    low = [iand(x, 255) for x in (r, g, b)]
    c.expect('pack: 0xFF alpha, 8-bit fields in RGB order', 'cu_argb_from_rgb', [r, g, b], pack(*low))
    a = argb()
    for root, sh in (('cu_alpha_from_argb', 24), ('cu_red_from_argb', 16), ('cu_green_from_argb', 8), ('cu_blue_from_argb', 0)):
        c.expect('extract: bits %d..%d' % (sh, sh + 7), root, [a], chan(a, sh))
    w = ivar('wide', -(1 << 40), 1 << 40)
    for root, sh in (('cu_red_from_argb', 16), ('cu_green_from_argb', 8), ('cu_blue_from_argb', 0)):
        c.expect('extract ignores the other bits: %s' % root, root, [w], chan(w, sh))
    c.expect('opacity test: alpha byte is 255', 'cu_is_opaque', [a], eq(chan(a, 24), 255))
    # inverse laws, on the code's own graphs
    def inv():
        x, y, z = (ivar(n, 0, 255) for n in ('r8', 'g8', 'b8'))
        I = c.interp(); st = State()
        v, st = I.run_root('cu_argb_from_rgb', [x, y, z], st)
        for root, want in (('cu_red_from_argb', x), ('cu_green_from_argb', y), ('cu_blue_from_argb', z), ('cu_alpha_from_argb', 255), ('cu_is_opaque', True)):
            u, st = I.run_root(root, [v], st)
            c.same('inverse: %s of a packed colour' % root, c.loc(root), u, want, Ctx(), I, st)
        q = ivar('opq', 0xFF000000, 0xFFFFFFFF)
        parts = [I.run_root(r_, [q], State())[0] for r_ in ('cu_red_from_argb', 'cu_green_from_argb', 'cu_blue_from_argb')]
        v, st = I.run_root('cu_argb_from_rgb', parts, State())
        c.same('inverse: repacking the channels of an opaque colour', c.loc('cu_argb_from_rgb'), v, q, Ctx(), I, st)
    c.guard('inverse laws', inv)


def P03(c):
    c.rule(EQ)
    k = ivar('component', 0, 255)
    c.expect('linearized follows the sRGB transfer function', 'cu_linearized', [k], S.linearized(k))
    x = fvar('linear', -1000, 1000, specials=(0.31308, 0, 100, 0.3))
    c.expect('delinearized follows the inverse transfer function', 'cu_delinearized', [x], S.delinearized(x))
    y = fvar('linear_big', -1e30, 1e30)
    c.expect('delinearized on extreme magnitudes', 'cu_delinearized', [y], S.delinearized(y))
    v = [fvar('lin' + n, -1000, 1000) for n in 'RGB']
    c.expect('linear triple to ARGB is channelwise', 'cu_argb_from_linrgb', lambda I, st: [Vec(v)], argb_from_lin(v))
    def table():
        # the two functions restricted to the 256 channel values: constant propagation, each value its own fact
        prev = -1.0
        bad = None
        for i in range(256):
            I = c.interp()
            f, st = I.run_root('cu_linearized', [i], State())
            if type(f) is not float: raise Unsupported('linearized not constant-foldable')
            b, st = I.run_root('cu_delinearized', [f], State())
            if not (f > prev) or not (0.0 <= f <= 100.0 + 1e-9): bad = ('linearized(%d)=%r is not increasing within 0..100' % (i, f)); break
            if b != i: bad = 'delinearized(linearized(%d)) = %r' % (i, b); break
            prev = f
        c.require('exact inverse, strictly increasing, 0..100 on all 256 channel values', bad is None, c.loc('cu_delinearized'), bad or '')
    c.guard('exact inverse on all channel values', table)


def P04(c):
    c.rule(EQ)
    l = fvar('lstar', -100, 200, specials=(8, 0, 100, 50))
    c.expect('L* to Y follows CIE 1976', 'cu_y_from_lstar', [l], S.y_from_lstar(l))
    y = fvar('y', -20, 200, specials=(0.8856451679035631, 0, 100, 18))
    c.expect('Y to L* follows CIE 1976', 'cu_lstar_from_y', [y], S.lstar_from_y(y))
    a = argb()
    c.expect('L* of an ARGB colour is L* of its luminance', 'cu_lstar_from_argb', [a], S.lstar_from_argb(a))
    c.expect('grey of a given L*', 'cu_argb_from_lstar', [l], S.argb_from_lstar(l))
    def inv():
        I = c.interp(); st = State()
        t = fvar('tone', 0, 100, specials=(8,))
        v, st = I.run_root('cu_y_from_lstar', [t], st)
        w, st = I.run_root('cu_lstar_from_y', [v], st)
        c.same('L* -> Y -> L* is the identity on 0..100', c.loc('cu_lstar_from_y'), w, t, Ctx(), I, st, rtol=1e-6)
        u = fvar('lum', 0, 100, specials=(0.8856451679035631,))
        v, st = I.run_root('cu_lstar_from_y', [u], State())
        w, st = I.run_root('cu_y_from_lstar', [v], st)
        c.same('Y -> L* -> Y is the identity on 0..100', c.loc('cu_y_from_lstar'), w, u, Ctx(), I, st, rtol=1e-6)
    c.guard('inverse', inv)


def P05(c):
    c.rule(EQ)
    x, y, z = (fvar(n, -300, 300) for n in 'xyz')
    c.expect('XYZ to ARGB: matrix then transfer', 'cu_argb_from_xyz', [x, y, z], S.argb_from_xyz(x, y, z))
    a = argb()
    c.expect('ARGB to XYZ: transfer then matrix', 'cu_xyz_from_argb', [a], S.xyz_from_argb(a))
    l, p, q = fvar('l', -50, 150), fvar('a', -300, 300), fvar('b', -300, 300)
    c.expect('Lab to ARGB', 'cu_argb_from_lab', [l, p, q], S.argb_from_lab(l, p, q))
    c.expect('ARGB to Lab', 'cu_lab_from_argb', [a], S.lab_from_argb(a))
    c.expect('white point', 'cu_white_point_d65', [], S.D65)
    c.expect('Lab point provider: to_int', 'lab_to_int', [l, p, q], S.argb_from_lab(l, p, q))
    c.expect('Lab point provider: from_int', 'lab_from_int', [a], S.lab_from_argb(a))
    def inv():
        # matrices extracted from the code's own graphs (coefficients of the linear forms) are mutually inverse
        lin = [fvar('L%d' % i, 0, 100) for i in range(3)]
        I = c.interp()
        tgt = Env(c, [], False).target('cu_linearized')
        n = [0]
        it = iter(lin * 9)
        h = {tgt['sdef']: lambda I, st, args, ce: uf('LIN', 'f', args, 0.0, 100.0)}
        I = c.interp(h)
        ks = [ivar('k%d' % i, 0, 255) for i in range(3)]
        col = pack(*ks)
        v, st = I.run_root('cu_xyz_from_argb', [col], State())
        us = [uf('LIN', 'f', (k,), 0.0, 100.0) for k in ks]
        tgt2 = Env(c, [], False).target('cu_delinearized')
        h2 = {tgt2['sdef']: lambda I, st, args, ce: uf('DEL', 'i', args, 0, 255)}
        if all(any(t is u for t in walk(x)) for x in v.f for u in us):
            J = c.interp(h2)
            r, st = J.run_root('cu_argb_from_xyz', list(v.f), State())
            found = [t for t in walk(r) if t.op == 'uf' and t.a[0] == 'DEL']
            if len(found) == 3:
                # the argument of each delinearisation must be (nearly) the channel itself
                for sh, u in zip((16, 8, 0), us):
                    ch = chan(r, sh)
                    if type(ch) is T and ch.op == 'uf' and ch.a[0] == 'DEL':
                        cst, ps = TT.linform(ch.a[1])
                        err = abs(cst)
                        for t, cf in dict(ps).items() if isinstance(ps, dict) else ps:
                            err = max(err, abs(cf - (1.0 if t is u else 0.0)))
                        c.require('conversion matrices are mutually inverse (channel at bit %d)' % sh, err < 1e-6, c.loc('cu_argb_from_xyz'), 'XYZ->RGB after RGB->XYZ deviates from the identity by %g' % err)
                        continue
                    raise Unsupported('channel extraction')
                return
        raise Unsupported('conversion matrices not extractable')
    c.guard('conversion matrices are mutually inverse', inv)
    def dist():
        P = [fvar('p%d' % i, -200, 200) for i in range(3)]; Q = [fvar('q%d' % i, -200, 200) for i in range(3)]
        d = 0.0
        for u, v in zip(P, Q): d = fadd(d, fmul(fsub(u, v), fsub(u, v)))
        c.expect('Lab distance is the squared Euclidean distance', 'lab_distance', lambda I, st: [I.new(st, Vec(P)), I.new(st, Vec(Q))], d)
    c.guard('lab distance', dist)


def P06(c):
    c.rule(EQ)
    d = fvar('deg', -100000, 100000, specials=(0, 360, -360, 180, 720, -180, 540))
    c.expect('degrees reduced modulo 360 into 0..360', 'mu_sanitize_degrees_double', [d], S.sanitize(d))
    i = ivar('ideg', -(1 << 63), (1 << 63) - 1, specials=(0, 360, -360, 359, -1, 1 << 31, -(1 << 31) - 1, 1 << 32, 1 << 40))
    r = irem(i, 360)
    c.expect('integer degrees reduced modulo 360', 'mu_sanitize_degrees_int', [i], ite(lt(r, 0), r + 360, r))
    p, q = fvar('ang1', 0, 360), fvar('ang2', 0, 360)
    def rng():
        v, st, I = c.run('mu_sanitize_degrees_int', [i])
        c.inrange('integer degrees within 0..359', c.loc('mu_sanitize_degrees_int'), v, 0, 359)
        v, st, I = c.run('mu_sanitize_degrees_double', [d])
        c.inrange('degrees within 0..360', c.loc('mu_sanitize_degrees_double'), v, 0.0, 360.0)
        v, st, I = c.run('mu_difference_degrees', [p, q])
        c.inrange('angular distance within 0..180', c.loc('mu_difference_degrees'), v, 0.0, 180.0)
        # double-precision rounding: a tiny negative angle must not round up to a full turn
        e = fvar('tiny_or_any_angle', -1e6, 1e6, specials=(0, -1e-20, -1e-14, -5e-324, 360, -360, 720, -1e-13, 359.99999999999994, -359.99999999999994))
        v, st, I = c.run('mu_sanitize_degrees_double', [e], ieee=True)
        c.inrange('degrees below 360 in double precision', c.loc('mu_sanitize_degrees_double'), v, 0.0, 360.0, hi_open=True)
    c.guard('integer degrees range', rng)
    a, b = fvar('from', -1000, 1000), fvar('to', -1000, 1000)
    c.expect('rotation direction is the sign of the shorter way round', 'mu_rotation_direction', [a, b], ite(le(S.sanitize(fsub(b, a)), 180.0), 1.0, -1.0))
    p, q = fvar('ang1', 0, 360), fvar('ang2', 0, 360)
    dd = fabs(fsub(p, q))
    c.expect('angular distance is the shorter arc', 'mu_difference_degrees', [p, q], ite(gt(dd, 180.0), 360.0 - dd, dd))
    def sym():
        v, st, I = c.run('mu_difference_degrees', [p, q])
        w, st, I = c.run('mu_difference_degrees', [q, p])
        c.same('angular distance is symmetric', c.loc('mu_difference_degrees'), v, w, Ctx(), I, st)
    c.guard('angular distance symmetric', sym)


def P07(c):
    c.rule(EQ)
    x = fvar('x', -1000, 1000, specials=(0,))
    c.expect('signum', 'mu_signum', [x], ite(lt(x, 0.0), -1, ite(eq(x, 0.0), 0, 1)))
    a, b, t = fvar('start', -1000, 1000), fvar('stop', -1000, 1000), fvar('amount', -2, 3, specials=(0, 1, 0.5))
    c.expect('lerp', 'mu_lerp', [a, b, t], a + (b - a) * t)
    lo, hi, v = fvar('min', -1000, 1000), fvar('max', -1000, 1000), fvar('input', -2000, 2000)
    c.expect('clamp (real)', 'mu_clamp_double', [lo, hi, v], ite(lt(v, lo), lo, ite(gt(v, hi), hi, v)), assume=[le(lo, hi)])
    il, ih, iv_ = ivar('imin', -1000, 1000), ivar('imax', -1000, 1000), ivar('iinput', -2000, 2000)
    c.expect('clamp (integer)', 'mu_clamp_int', [il, ih, iv_], ite(lt(iv_, il), il, ite(gt(iv_, ih), ih, iv_)), assume=[le(il, ih)])
    row = [fvar('r%d' % i, -100, 100) for i in range(3)]
    m = [[fvar('m%d%d' % (i, j), -100, 100) for j in range(3)] for i in range(3)]
    c.expect('matrix product', 'mu_matrix_multiply', lambda I, st: [Vec(row), Vec([Vec(r) for r in m])], mat(m, row))


def P08(c):
    c.rule('the formatted string, expanded into characters, equals the expected digit sequence (each digit a 4-bit field of the colour); parsing the symbolic string yields the 24-bit value')
    a = argb()
    NONE, YES, NO = Agg(None, 0, ()), Agg(None, 1, (True,)), Agg(None, 1, (False,))
    want = [('hd', True, iand(shr(a, 4 * i), 15)) for i in range(5, -1, -1)]
    for nm, opt, pre in (('default', NONE, ['#']), ('requested', YES, ['#']), ('suppressed', NO, [])):
        def go(nm=nm, opt=opt, pre=pre):
            v, st, I = c.run('su_hex_from_argb', [a, opt])
            c.check_panics('format', 'su_hex_from_argb', I)
            for d, ctx in arms(v, Ctx()):
                cs = models.schars(d)
                if cs is None: raise Unsupported('string not expressible')
                ok = cs == pre + want
                c.require('hex format, leading # %s: RRGGBB in upper-case digits' % nm, ok, c.loc('su_hex_from_argb'),
                          'formats as %s' % ''.join(x if type(x) is str else '<%s>' % show(x[2]) for x in cs))
        c.guard('hex format, leading # %s' % nm, go)
    for nm, pre in (('with #', '#'), ('without #', '')):
        for up in (True, False):
            def go(nm=nm, pre=pre, up=up):
                s = Str(((pre,) if pre else ()) + tuple(('hd', up, d[2]) for d in want))
                v, st, I = c.run('su_argb_from_hex', [s])
                c.check_panics('parse', 'su_argb_from_hex', I)
                c.same('parse %s, %s digits: the 24-bit value' % (nm, 'upper' if up else 'lower'), c.loc('su_argb_from_hex'), v, Variant('Some', iand(a, 0xFFFFFF)), Ctx(), I, st)
            c.guard('parse %s' % nm, go)
    def rt():
        v, st, I = c.run('su_hex_from_argb', [a, NONE])
        w, st, I = c.run('su_argb_from_hex', [v], st=st)
        c.same('formatting then parsing preserves the RGB value', c.loc('su_argb_from_hex'), w, Variant('Some', iand(a, 0xFFFFFF)), Ctx(), I, st)
    c.guard('round trip', rt)
    BAD = ['', '#', 'zz', '#12 34', '0x12', '--1', '#ggg', '99999999999999999999', '##', '#-', '12g456', 'red', 'rgb(1,2,3)', ' ']
    for k in range(1, 10):      # text of every short length with a wide character at every place
        for i in range(k): BAD.append(('#' if k % 2 else '') + '1234567890'[:i] + '\u20ac' + '1234567890'[i:k - 1])
    for bad in BAD:
        def neg(bad=bad):
            v, st, I = c.run('su_argb_from_hex', [Str((bad,))])
            c.check_panics('parse', 'su_argb_from_hex', I)
            c.same('text that is not a hex number yields no colour: %r' % bad, c.loc('su_argb_from_hex'), v, Variant('None'), Ctx(), I, st)
        c.guard('reject %r' % bad, neg)
    for k in (0x000000, 0xFFFFFF, 0xFF0000, 0x0000FF, 0x00FF00, 0xFFF000, 0xABCDEF, 0x123456, 0x0F0F0F, 0xF0F0F0, 0x00000F, 0x800001, 0x0A0B0C, 0x654321, 0xAAAAAA, 0xDDDDDD, 0x999999, 0xEEE000, 0x00B000):
        for pre in ('', '#'):
            for fm in ('%06x', '%06X'):
                def pos(text=pre + fm % k, k=k):
                    v, st, I = c.run('su_argb_from_hex', [Str((text,))])
                    c.check_panics('parse', 'su_argb_from_hex', I)
                    c.same('parse %r' % text, c.loc('su_argb_from_hex'), v, Variant('Some', k), Ctx(), I, st)
                c.guard('parse %r' % (pre + fm % k), pos)
    def total():
        v, st, I = c.run('su_argb_from_hex', [Opq('text')])
        c.check_panics('parse of arbitrary text', 'su_argb_from_hex', I)
        c.proved('no panic site reachable while parsing arbitrary text', '%d sites' % I.asserts)
    c.guard('total', total)
