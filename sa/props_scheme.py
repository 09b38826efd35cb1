"""Schemes and roles as objects: getters, caches, equality and hashing."""
from frame import *
from env import *
from spec import *
from spec_cam import *
from spec_roles import *
from spec_roles import R as ROLES
from props_utils import EQ, argb
from props_hct import HN, getters, hct_of, Opt
from props_dyn import *
from props_pal import COMMON


def P18(c):
    c.rule(EQ)
    c.rule('for every role and variant: the scheme getter, DynamicScheme::get_argb and DynamicColor::get_argb give the palette colour at the role\'s resolved tone; no panic site is reachable on the way; role names are distinct')
    pal, src, dark, level = symbols()
    kh = keyh(c)
    names = {}
    for name, r in ROLES.items():
        for v in (VARIANTS if c.tier == 'thorough' else ['TonalSpot', 'Monochrome', 'Content', 'Fidelity']):
            def go(name=name, r=r, v=v):
                E = Env(c, HN + CN, True, kh)
                I = c.interp(E.h, unroll=UNROLL)
                st = State()
                sc = I.new(st, scheme_args(c, I, st, v, pal, src, dark, level))
                d = lambda: I.new(st, I.run_root('role_' + name, [], st)[0])
                if v == 'TonalSpot':
                    n = I.run_root('dcf_name', [d()], st)[0]
                    n = ''.join(n.p) if type(n) is Str and all(type(x) is str for x in n.p) else None
                    if n is not None: names.setdefault(n, []).append(name)
                tone = I.run_root('dc_get_tone', [d(), sc], st)[0]
                if tone is None: raise Unsupported('no tone')
                want = E.f(I, st, 'hs_solve_to_int', *(list(pal[r.pal]) + [tone]))
                w = c.loc('sget_' + name)
                a, s2 = I.run_root('sget_' + name, [sc], st)
                c.check_panics('%s, %s schemes: total' % (name, v), 'sget_' + name, I)
                if a is None: return c.violation('%s, %s schemes: getter' % (name, v), w, 'never returns normally')
                c.same('%s, %s schemes: getter' % (name, v), w, a, want, Ctx(), I, s2, secs=3.0, n=120)
                if v != 'TonalSpot': return
                for root, mk in (('ds_get_argb', lambda: [sc, d()]), ('dc_get_argb', lambda: [d(), sc])):
                    a, s2 = I.run_root(root, mk(), st)
                    c.same('%s: %s' % (name, root), c.loc(root), a, want, Ctx(), I, s2, secs=3.0, n=120)
                for root, mk in (('ds_get_hct', lambda: [sc, d()]), ('dc_get_hct', lambda: [d(), sc])):
                    a, s2 = I.run_root(root, mk(), st)
                    c.same('%s: %s' % (name, root), c.loc(root), getters(I, s2, a), hct_of(E, I, s2, want), Ctx(), I, s2, secs=3.0, n=120)
                c.visited |= I.visited; c.asserts += I.asserts
            c.guard('%s, %s' % (name, v), go)
    dup = {n: l for n, l in names.items() if len(l) > 1}
    c.require('role names are distinct', not dup, 'dynamiccolor::material_dynamic_colors', 'same name: %s' % dup)


def P20(c):
    c.rule(EQ)
    c.rule('a DynamicColor asked for scheme B after schemes A, A\' gives what a fresh one gives for B, for pairs of schemes that differ in every single component and in all')
    pal, src, dark, level = symbols()
    pal2, src2, dark2, level2 = {p: (fvar(p + '.hue2', 0, 360), fvar(p + '.chroma2', 0, 120)) for p in PALS}, argb('source2'), bvar('dark2'), fvar('level2', -1.5, 1.5, specials=(-1, 0, 0.5, 1))
    kh = keyh(c)
    kc = argb('keycolor')
    def build(I, st, variant, P, s, d, l):
        ps = []
        for p in PALS:
            x = P[p]
            if type(x) is tuple: ps.append(I.run_root('tp_of', list(x), st)[0])
            else: ps.append(x(I, st))
        return I.run_root('ds_new', [s, enumv(c.p, 'Variant', variant), Opt(l), d] + ps, st)[0]
    def key_of(I, st): return I.run_root('tp_from_hct', [I.new(st, I.run_root('hct_from_int', [kc], st)[0])], st)[0]
    def same_hc(E, I, st):
        m = E.f(I, st, 'cam_from_int', kc)
        return (field(c.p, m, 'hue'), field(c.p, m, 'chroma'))
    B = ('TonalSpot', pal, src, dark, level)
    others = {'everything but the variant': ('TonalSpot', pal2, src2, dark2, level2), 'source colour': ('TonalSpot', pal, src2, dark, level), 'variant': ('Fidelity', pal, src, dark, level),
              'mode': ('TonalSpot', pal, src, b_not(dark), level), 'contrast level': ('TonalSpot', pal, src, dark, level2)}
    for p in PALS:
        others['%s hue' % p] = ('TonalSpot', dict(pal, **{p: (pal2[p][0], pal[p][1])}), src, dark, level)
        others['%s chroma' % p] = ('TonalSpot', dict(pal, **{p: (pal[p][0], pal2[p][1])}), src, dark, level)
    def pairs_for(name):
        r = ROLES[name]
        yield from others.items()
    pick = ['primary', 'primary_container', 'tertiary_container', 'secondary_container', 'surface_bright', 'on_surface_variant', 'outline', 'on_tertiary_fixed', 'neutral_palette_key_color', 'primary_palette_key_color', 'error_container']
    if c.tier == 'thorough': pick = list(ROLES)
    for name in pick:
        for diff, A_ in pairs_for(name):
            for v in (['TonalSpot'] if diff != 'variant' else ['TonalSpot']):
                def go(name=name, diff=diff, A_=A_):
                    E = Env(c, HN + CN, True, kh)
                    I = c.interp(E.h, unroll=UNROLL); st = State()
                    a, b = I.new(st, build(I, st, *A_)), I.new(st, build(I, st, *B))
                    d = I.new(st, I.run_root('role_' + name, [], st)[0])
                    f = I.new(st, I.run_root('role_' + name, [], st)[0])
                    want = I.run_root('dc_get_argb', [f, b], st)[0]
                    I.run_root('dc_get_argb', [d, a], st)
                    I.run_root('dc_get_argb', [d, b], st)
                    I.run_root('dc_get_argb', [d, a], st)
                    v, s2 = I.run_root('dc_get_argb', [d, b], st)
                    c.visited |= I.visited; c.asserts += I.asserts
                    c.same('%s: answer after a scheme with another %s' % (name, diff), c.loc('dc_get_argb'), v, want, Ctx(), I, s2, secs=2.0, n=80)
                c.guard('%s: %s' % (name, diff), go)
        # palettes that agree in hue and chroma but not in key colour
        for p in PALS:
            def go(name=name, p=p):
                E = Env(c, HN + CN, True, kh)
                I = c.interp(E.h, unroll=UNROLL); st = State()
                hc = same_hc(E, I, st)
                A_ = I.new(st, build(I, st, 'TonalSpot', dict(pal, **{p: hc}), src, dark, level))
                b = I.new(st, build(I, st, 'TonalSpot', dict(pal, **{p: key_of}), src, dark, level))
                d = I.new(st, I.run_root('role_' + name, [], st)[0])
                f = I.new(st, I.run_root('role_' + name, [], st)[0])
                want = I.run_root('dc_get_argb', [f, b], st)[0]
                I.run_root('dc_get_argb', [d, A_], st)
                v, s2 = I.run_root('dc_get_argb', [d, b], st)
                c.same('%s: answer after a scheme with another %s key colour' % (name, p), c.loc('dc_get_argb'), v, want, Ctx(), I, s2, secs=2.0, n=80)
            if name.startswith(p) or name in ('primary', 'surface_bright'): c.guard('%s: %s key colour' % (name, p), go)
    # many different schemes, then the first again
    def many():
        E = Env(c, HN + CN, True, kh)
        I = c.interp(E.h, unroll=UNROLL); st = State()
        ss = [I.new(st, build(I, st, 'TonalSpot', pal, src, bool(i & 1), [-1.0, 0.0, 0.5, 1.0][i // 2])) for i in range(8)]
        for name in ('primary', 'on_surface_variant', 'tertiary_fixed'):
            d = I.new(st, I.run_root('role_' + name, [], st)[0])
            for k in list(range(8)) + [0, 7, 3, 5, 1]:
                f = I.new(st, I.run_root('role_' + name, [], st)[0])
                want = I.run_root('dc_get_argb', [f, ss[k]], st)[0]
                v = I.run_root('dc_get_argb', [d, ss[k]], st)[0]
                c.same('%s: scheme %d in a sequence of eight modes and levels' % (name, k), c.loc('dc_get_argb'), v, want, Ctx(), I, st, secs=2.0, n=60)
    c.guard('many schemes', many)
    # palettes of a scheme warmed up beforehand do not change the answer
    def warm():
        E = Env(c, HN + CN, True, kh)
        x = ivar('looked_up', 0, 100)
        for name in ('primary', 'on_primary', 'surface', 'outline'):
            I = c.interp(E.h, unroll=UNROLL); st = State()
            def wp(p):
                def mk(I, st):
                    r = I.new(st, I.run_root('tp_of', list(pal[p]), st)[0])
                    for t in (x, 40, 80, 100): I.run_root('tp_get', [r, t], st)
                    return I.load(st, r)
                return mk
            a = I.new(st, build(I, st, 'TonalSpot', {p: wp(p) for p in PALS}, src, False, 0.0))
            b = I.new(st, build(I, st, 'TonalSpot', pal, src, False, 0.0))
            g = lambda s: I.run_root('sget_' + name, [s], st)[0]
            c.same('%s: same colour whether or not its palettes were used before' % name, c.loc('sget_' + name), g(a), g(b), Ctx(), I, st, secs=3.0, n=120)
    c.guard('warm palettes', warm)


def hash_of(I, st, root, r):
    s2 = st.fork()
    s2.mem.pop(('hashtrace', 0), None)
    _, s3 = I.run_root(root, [r, I.new(s2, struct(I.p, 'TraceHasher', {'t': 0}))], s2)
    t = s3.mem.get(('hashtrace', 0))
    return list(t.f) if t is not None else []


def P21(c):
    c.rule('equality is reflexive, symmetric and (per way of construction) transitive; on every path where two values compare equal, the sequence of values they feed to a hasher is the same; total and partial order agree with each other and with equality')
    h, ch, h2, ch2, h3, ch3 = (fvar(n, 0, 360) for n in ('h1', 'c1', 'h2', 'c2', 'h3', 'c3'))
    kh = keyh(c)
    cols = [[argb('l%d_%d' % (j, k)) for k in range(13)] for j in range(3)]
    def env():
        E = Env(c, HN, True, kh)
        return E, c.interp(E.h), State()
    def law(name, mk, eqr, hashr=None, trans=True, m0=0):
        def go():
            E, I, st = env()
            vs = mk(E, I, st)
            E_ = lambda a, b: I.run_root(eqr, [a, b], st.fork())[0]
            w = c.loc(eqr)
            for i, v in enumerate(vs):
                c.same('%s %d: equal to itself' % (name, i), w, E_(v, v), True, Ctx(), I, st)
            for i in range(len(vs)):
                for j in range(len(vs)):
                    if i < j:
                        ab, ba = E_(vs[i], vs[j]), E_(vs[j], vs[i])
                        c.same('%s %d, %d: symmetric' % (name, i, j), w, ab, ba, Ctx(), I, st, secs=4.0)
                        if hashr:
                            if ab is False:
                                c.proved('%s %d, %d: never equal' % (name, i, j)); continue
                            ctx = Ctx().assume(ab, True) if ab is not True else Ctx()
                            ha, hb = hash_of(I, st, hashr, vs[i]), hash_of(I, st, hashr, vs[j])
                            same_trace(c, '%s %d, %d: equal values hash alike' % (name, i, j), c.loc(hashr), ha, hb, ctx, I, st, E)
            if trans and len(vs) == 3:
                ab, bc, ac = E_(vs[0], vs[1]), E_(vs[1], vs[2]), E_(vs[0], vs[2])
                c.same('%s: transitive' % name, w, b_or(b_not(b_and(ab, bc)), ac), True, Ctx(), I, st, secs=6.0)
        c.guard(name, go)
    tp = lambda I, st, a, b: I.new(st, I.run_root('tp_of', [a, b], st)[0])
    tl = lambda I, st, l: I.new(st, I.run_root('tp_from_list', [I.new(st, Vec(l))], st)[0])
    law('palettes of hue and chroma', lambda E, I, st: [tp(I, st, h, ch), tp(I, st, h2, ch2), tp(I, st, h3, ch3)], 'tp_eq', 'tp_hash')
    law('palettes from lists', lambda E, I, st: [tl(I, st, cols[0]), tl(I, st, cols[1])], 'tp_eq', 'tp_hash')
    cp = lambda I, st, a: I.new(st, I.run_root('cp_of', [a], st)[0])
    law('core palettes', lambda E, I, st: [cp(I, st, argb('of1')), cp(I, st, argb('of2')), cp(I, st, argb('of3'))], 'cp_eq', 'cp_hash')
    def cplist(E, I, st):
        l = I.run_root('cp_as_list', [cp(I, st, argb('of1'))], st)[0]
        return [cp(I, st, argb('of1')), I.new(st, I.run_root('cp_from_list', [I.new(st, l)], st)[0])]
    law('core palettes and those rebuilt from their list', cplist, 'cp_eq', 'cp_hash')
    def mixed(E, I, st):
        p = tp(I, st, h, ch)
        l = I.run_root('tp_get_as_list', [tp(I, st, h, ch)], st)[0]
        return [p, tl(I, st, list(l.f))]
    law('palette and the one rebuilt from its list', mixed, 'tp_eq', 'tp_hash')
    law('palette and any list palette', lambda E, I, st: [tp(I, st, h, ch), tl(I, st, cols[0])], 'tp_eq', 'tp_hash')
    def used(E, I, st):
        p, q = tp(I, st, h, ch), tp(I, st, h, ch)
        I.run_root('tp_get', [q, ivar('t', 0, 100)], st)
        return [p, q]
    def eqtrue(name, mk, eqr):
        def go():
            E, I, st = env()
            a, b = mk(E, I, st)
            c.same(name, c.loc(eqr), I.run_root(eqr, [a, b], st)[0], True, Ctx(), I, st, secs=4.0)
        c.guard(name, go)
    law('palette and the same palette after a look-up', used, 'tp_eq', 'tp_hash')
    eqtrue('a look-up does not change a palette\'s identity', used, 'tp_eq')
    a1, a2, a3 = argb('x'), argb('y'), argb('z')
    hc = lambda I, st, a: I.new(st, I.run_root('hct_from_int', [a], st)[0])
    law('HCT colours', lambda E, I, st: [hc(I, st, a1), hc(I, st, a2), hc(I, st, a3)], 'hct_eq', 'hct_hash')
    def hcteq():
        E, I, st = env()
        c.same('HCT colours are equal exactly when their ARGB values are', c.loc('hct_eq'), I.run_root('hct_eq', [hc(I, st, a1), hc(I, st, a2)], st)[0], eq(a1, a2), Ctx(), I, st)
    c.guard('HCT equality', hcteq)
    for i, v in enumerate(VARIANTS):
        def var(i=i, v=v):
            E, I, st = env()
            for w in VARIANTS[i:]:
                p, q = I.new(st, enumv(c.p, 'Variant', v)), I.new(st, enumv(c.p, 'Variant', w))
                e = I.run_root('var_eq', [p, q], st)[0]
                c.require('variants %s and %s %s' % (v, w, 'are equal' if v == w else 'differ'), e is (v == w), c.loc('var_eq'), 'compare as %r' % (e,))
                if e is True: same_trace(c, 'variants %s and %s hash alike' % (v, w), c.loc('var_hash'), hash_of(I, st, 'var_hash', p), hash_of(I, st, 'var_hash', q), Ctx(), I, st, E)
        c.guard('variant ' + v, var)
    pal, src, dark, level = symbols()
    pal2 = {p: (fvar(p + '.hue2', 0, 360), fvar(p + '.chroma2', 0, 120)) for p in PALS}
    src2, dark2, level2 = argb('source2'), bvar('dark2'), fvar('level2', -1.5, 1.5, specials=(-1, 0, 0.5, 1))
    sch = lambda I, st, v, P, s, d, l: I.new(st, scheme_args(c, I, st, v, P, s, d, l))
    law('schemes', lambda E, I, st: [sch(I, st, 'Vibrant', pal, src, dark, level), sch(I, st, 'Vibrant', pal2, src2, dark2, level2)], 'ds_eq', 'ds_hash')
    law('schemes of contrast 0 and -0', lambda E, I, st: [sch(I, st, 'Vibrant', pal, src, dark, 0.0), sch(I, st, 'Vibrant', pal, src, dark, -0.0)], 'ds_eq', 'ds_hash')
    eqtrue('schemes of contrast 0 and -0 are equal', lambda E, I, st: (sch(I, st, 'Vibrant', pal, src, dark, 0.0), sch(I, st, 'Vibrant', pal, src, dark, -0.0)), 'ds_eq')
    def dseq():
        E, I, st = env()
        a, b = sch(I, st, 'Vibrant', pal, src, dark, level), sch(I, st, 'Vibrant', pal2, src2, dark2, level2)
        e = I.run_root('ds_eq', [a, b], st)[0]
        want = b_and(eq(src, src2), TT.b_or(b_and(dark, dark2), b_and(b_not(dark), b_not(dark2))), eq(level, level2), *[eq(x, y) for p in PALS for x, y in zip(pal[p], pal2[p])])
        c.same('schemes are equal exactly when source, mode, contrast and palettes are', c.loc('ds_eq'), e, want, Ctx(), I, st, secs=10.0)
        k = I.run_root('ds_eq', [a, sch(I, st, 'Neutral', pal, src, dark, level)], st)[0]
        c.require('schemes of different variants differ', k is False, c.loc('ds_eq'), 'compare as %r' % (k,))
    c.guard('scheme equality', dseq)
    def dskey():
        E, I, st = env()
        kc = argb('keycolor')
        m = E.f(I, st, 'cam_from_int', kc)
        A_ = I.run_root('tp_of', [field(c.p, m, 'hue'), field(c.p, m, 'chroma')], st)[0]
        B_ = I.run_root('tp_from_hct', [I.new(st, I.run_root('hct_from_int', [kc], st)[0])], st)[0]
        for i, p in enumerate(PALS):
            def mk(x):
                ps = [I.run_root('tp_of', list(pal[q]), st)[0] for q in PALS]
                ps[i] = x
                return I.new(st, I.run_root('ds_new', [src, enumv(c.p, 'Variant', 'Vibrant'), Opt(level), dark] + ps, st)[0])
            e = I.run_root('ds_eq', [mk(A_), mk(B_)], st)[0]
            same = eq(keyc(E, I, st, field(c.p, m, 'hue'), field(c.p, m, 'chroma')), kc)
            c.same('schemes whose %s palettes have different key colours differ' % p, c.loc('ds_eq'), b_or(b_not(e), same), True, Ctx(), I, st, secs=4.0)
    c.guard('key colours', dskey)
    # distances
    d1, d2, d3 = (fvar('dist%d' % i, 0, 1e4) for i in range(3))
    i1, i2, i3 = (ivar('index%d' % i, 0, 1000) for i in range(3))
    def di(I, st, d, i): return I.new(st, struct(c.p, 'DistanceAndIndex', {'distance': d, 'index': i}))
    def order():
        E, I, st = env()
        x, y = di(I, st, d1, i1), di(I, st, d2, i2)
        w = c.loc('di_cmp')
        run = lambda r, *a: I.run_root(r, list(a), st)[0]
        want = ite(lt(d1, d2), -1, ite(gt(d1, d2), 1, ite(lt(i1, i2), -1, ite(gt(i1, i2), 1, 0))))
        cm = ordv(I, run('di_cmp', x, y)); cr = ordv(I, run('di_cmp', y, x))
        c.same('distances: order by distance', w, b_or(b_not(lt(d1, d2)), eq(cm, -1)), True, Ctx(), I, st)
        c.same('distances: reversed operands, reversed order', w, iadd(cm, cr), 0, Ctx(), I, st)
        p = run('di_partial_cmp', x, y)
        c.same('distances: partial order exists and is the total order', w, ordopt(I, p), cm, Ctx(), I, st)
        c.same('distances: equal exactly when ordered equal', w, run('di_eq', x, y), eq(cm, 0), Ctx(), I, st)
        z = di(I, st, d3, i3)
        xy, yz, xz = cm, ordv(I, run('di_cmp', y, z)), ordv(I, run('di_cmp', x, z))
        c.same('distances: transitive', w, b_or(b_not(b_and(le(xy, 0), le(yz, 0))), le(xz, 0)), True, Ctx(), I, st, secs=6.0)
    c.guard('distances', order)


def ordv(I, v):
    """std::cmp::Ordering as -1, 0, 1"""
    if type(v) is Choice: return ite(v.c, ordv(I, v.a), ordv(I, v.b))
    if is_scalar(v): return v
    if type(v) is Agg: return v.v - 1
    raise Unsupported('ordering %r' % (v,))


def ordopt(I, v):
    if type(v) is Choice: return ite(v.c, ordopt(I, v.a), ordopt(I, v.b))
    if type(v) is Agg: return 7 if v.v == 0 else ordv(I, v.f[0])
    raise Unsupported('option %r' % (v,))


def same_trace(c, name, where, a, b, ctx, I, st, E):
    if len(a) != len(b): return c.violation(name, where, 'feed %d and %d values to the hasher' % (len(a), len(b)))
    for x, y in zip(a, b):
        if type(x) is not type(y) and not (is_scalar(x) and is_scalar(y)):
            return c.violation(name, where, 'feed different kinds of values to the hasher')
        if not is_scalar(x) and not (x == y or val_same(x, y)):
            return c.violation(name, where, 'feed %r and %r to the hasher' % (x, y))
    xs = [(x, y) for x, y in zip(a, b) if is_scalar(x)]
    worst = 'proved'; n = 0
    for x, y in xs:
        if type(x) is float and type(y) is float and (x != y or math.copysign(1, x) != math.copysign(1, y)):
            return c.violation(name, where, 'feed %r and %r to the hasher' % (x, y))
        r = decide_equal(x, y, ctx, c.seed, 200, 6.0, nodes=600)
        if r == 'proved': continue
        if r[0] == 'refuted': return c.violation(name, where, 'equal values feed %s and %s to the hasher' % (fmtv(r[2]), fmtv(r[3])), r[1])
        worst = 'agree'; n += r[1]
    (c.proved if worst == 'proved' else c.agree)(name, '%d values' % len(xs))
