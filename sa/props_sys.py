"""System-wide effect and range analyses."""
import re
from frame import *
from env import *
import interp as IT

FORBID = [
    ('reads or writes the environment', r'^std::env::'),
    ('touches the file system', r'^std::fs::|<std::fs::|std::path::Path::(exists|is_file|is_dir|canonicalize|metadata)'),
    ('uses the network', r'^std::net::|<std::net::'),
    ('starts or queries processes', r'^std::process::|<std::process::'),
    ('uses threads or thread identity', r'^std::thread::(?!LocalKey)|<std::thread::(?!LocalKey)'),
    ('uses thread-local state', r'std::thread::LocalKey|std::thread::local_impl|std::sys::thread_local'),
    ('performs input or output', r'^std::io::|<std::io::|std::io::_e?print'),
    ('draws unseeded randomness', r'thread_rng|^rand::random|from_entropy|OsRng|getrandom|ThreadRng|from_os_rng|from_rng'),
    ('reads the per-process hash seed', r'RandomState as std::hash::BuildHasher|BuildHasher(>)?::(build_hasher|hash_one)$'),
    ('prints an address', r'Argument::new_pointer|fmt::Pointer'),
]
CLOCK = r'^std::time::(Instant|SystemTime)::now|<std::time::(Instant|SystemTime) as .*>::now|SystemTime::elapsed'
MUTABLE = r'::(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|Atomic\w*|SyncUnsafeCell|Condvar|Barrier)$'
ONCE = r'::(OnceLock|LazyLock|Once)$'


def reachable(inst):
    """blocks reachable when switches on constants are folded"""
    bl = inst['blocks']
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        t = bl[b]['t']
        nx = IT.succs(t)
        if t[0] == 'switch':
            v = const_of(bl[b]['s'], t[1])
            if v is not None:
                hit = [x[1] for x in t[2] if int(x[0]) == v]
                nx = hit[:1] or [t[3]]
        st += [x for x in nx if x is not None]
    return seen


def const_of(stmts, op):
    for _ in range(4):
        if op[0] == 'c':
            c = op[2]
            if isinstance(c, dict):
                if 'bool' in c: return int(c['bool'])
                if 'int' in c: return int(c['int'])
            return None
        if op[1][1]: return None
        l = op[1][0]; new = None
        for s in reversed(stmts):
            if s[0] == '=' and s[1] == [l, []]:
                if s[2][0] == 'use': new = s[2][1]
                break
        if new is None: return None
        op = new
    return None


def ops_of(rv):
    """operand / place locals an rvalue reads"""
    out = []
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('cp', 'mv') and isinstance(x[1], list): out.append(x[1]); return
            if x and x[0] == 'c' and len(x) == 3: return
            for y in x: go(y)
    k = rv[0]
    if k in ('ref', 'addr', 'discr', 'len'): out.append(rv[1])
    else: go(rv[1:])
    return out


def statics_in(x, out):
    if isinstance(x, dict):
        if 'static' in x and isinstance(x['static'], str): out.add(x['static'])
        for v in x.values(): statics_in(v, out)
    elif isinstance(x, list):
        for v in x: statics_in(v, out)


class Effects:
    def __init__(self, c):
        self.c = c; p = c.p
        self.p = p
        self.mine = [i for i in p.insts if CR in i['def'] and 'blocks' in i and not i['def'].startswith('probe::')]
        self.live = {i['ix']: reachable(i) for i in p.insts if 'blocks' in i and (CR in i['def'] or i['def'].startswith('probe::'))}

    def where(self, i, b): return '%s (%s)' % (i['def'].replace(CR, ''), i['blocks'][b].get('sp', '').replace('/repo/', ''))

    def callee(self, t):
        ce = t[1]
        if 'ptr' in ce: return None, None
        ix = ce.get('inst')
        n = self.p.insts[ix]['sdef'] if ix is not None else strip_generics(ce.get('rdef') or ce['def'])
        return n, ix

    def adts(self, ty, seen=None):
        seen = set() if seen is None else seen
        if ty in seen: return seen
        seen.add(ty)
        t = self.p.types[ty]
        for k in ('to', 'elem'):
            if k in t: self.adts(t[k], seen)
        for k in ('args', 'elems'):
            for x in t.get(k, ()):
                if isinstance(x, int): self.adts(x, seen)
        for v in t.get('variants', ()):
            for f in v['fields']: self.adts(f[1] if isinstance(f, list) else f['ty'], seen)
        return seen

    # ---------------------------------------------------------- direct effects
    def direct(self):
        c = self.c
        hits = {k: [] for k, _ in FORBID}
        calls = 0; ptr = []
        self.clock = []
        for i in self.mine:
            for b in sorted(self.live[i['ix']]):
                B = i['blocks'][b]; t = B['t']
                for s in B['s']:
                    if s[0] == '=' and s[2][0] == 'cast' and re.search('PointerExpose', str(s[2][1])): ptr.append(self.where(i, b))
                    if s[0] == '=' and s[2][0] == 'tls': hits['uses thread-local state'].append((self.where(i, b), s[2][1]))
                if t[0] != 'call': continue
                n, ix = self.callee(t)
                if n is None: continue
                calls += 1
                names = {n, strip_generics(t[1]['def'])}
                if ix is not None and CR in self.p.insts[ix]['def']: continue
                for k, rx in FORBID:
                    if any(re.search(rx, x) for x in names):
                        hits[k].append((self.where(i, b), n)); break
                if any(re.search(CLOCK, x) for x in names): self.clock.append((i['ix'], b, n))
        self.calls = calls
        for k, l in hits.items():
            if l: c.violation('no function %s' % k, l[0][0], 'calls %s' % ', '.join('%s at %s' % (n, w) for w, n in l[:4]))
            else: c.proved('no function %s' % k, 'none of %d call sites in %d functions' % (calls, len(self.mine)))
        c.require('no address is turned into a number', not ptr, ptr[0] if ptr else '', 'pointer converted to an integer at %s' % ', '.join(ptr[:4]))

    # ---------------------------------------------------------- process-wide state
    def statics(self):
        c = self.c; p = self.p
        used = {}
        for i in self.mine:
            for b in sorted(self.live[i['ix']]):
                B = i['blocks'][b]; s = set()
                statics_in(B['s'], s); statics_in(B['t'], s)
                for x in s: used.setdefault(x, []).append((i, b))
                # a mutable static is addressed through a *mut constant
                for st in B['s']:
                    if st[0] == '=' and st[2][0] == 'use' and st[2][1][0] == 'c':
                        ty = p.types[st[2][1][1]]; q = set(); statics_in(st[2][1][2], q)
                        if q and ty['k'] == 'ptr' and ty['mut']:
                            c.violation('no mutable process-wide state', self.where(i, b), 'static mut %s is used' % sorted(q)[0]); return
        n = 0
        for name in sorted(set(used) | {x for x in p.statics if x.startswith(CR)}):
            if not name.startswith(CR): continue
            n += 1
            ty = p.statics[name]['ty'] if name in p.statics else None
            if ty is None: continue
            ns = [p.types[x].get('name', '') for x in self.adts(ty)]
            once = any(re.search(ONCE, x) for x in ns)
            mut = [x for x in ns if re.search(MUTABLE, x)]
            w = self.where(*used[name][0]) if name in used else name
            if once:
                # written once: the value may only be computed from constants
                bad = None
                for i, b in used.get(name, ()):
                    for b2 in self.live[i['ix']]:
                        t = i['blocks'][b2]['t']
                        if t[0] != 'call': continue
                        cn, ix = self.callee(t)
                        if cn is None: continue
                        if re.search(r'OnceLock::(set|take|get_mut|try_insert)$', cn): bad = self.where(i, b2)
                        if re.search(r'OnceLock::get_or_init$|OnceLock::get_or_try_init$', cn):
                            for o in t[2]:
                                if o[0] in ('cp', 'mv') and not o[1][1]:
                                    ct = p.types[i['locals'][o[1][0]]]
                                    if ct['k'] == 'closure' and self.captures(i, o[1][0]): bad = self.where(i, b2)
                if bad: c.violation('no mutable process-wide state', bad, 'the value kept in static %s depends on the first caller' % name); return
            elif mut:
                c.violation('no mutable process-wide state', w, 'static %s holds %s' % (name, mut[0])); return
        c.proved('no mutable process-wide state', '%d statics of the crate examined' % n)

    def captures(self, i, l):
        for B in i['blocks']:
            for s in B['s']:
                if s[0] == '=' and s[1] == [l, []] and s[2][0] == 'agg' and s[2][1] == 'closure': return bool(s[2][4])
        return False

    # ---------------------------------------------------------- where clock readings go
    def taint(self):
        """Flow of clock readings through locals, references, calls and captured variables: no branch and no result of a
        public entry point may depend on them."""
        c = self.c; p = self.p
        T = set()        # (inst, local)
        why = {}
        callers = {}     # inst -> [(caller inst, block)]
        work = []
        insts = {ix: p.insts[ix] for ix in self.live}
        for ix, i in insts.items():
            for b in self.live[ix]:
                t = i['blocks'][b]['t']
                if t[0] == 'call' and t[1].get('inst') in insts: callers.setdefault(t[1]['inst'], []).append((ix, b))
        for ix, b, n in self.clock: work.append((ix, insts[ix]['blocks'][b]['t'][3][0]))
        alias = {}
        for ix, i in insts.items():
            for b in self.live[ix]:
                for s in i['blocks'][b]['s']:
                    if s[0] == '=' and s[2][0] in ('ref', 'addr'):
                        # through a mutable reference what is written reaches the referent
                        if s[2][0] == 'addr' or s[2][2]: alias.setdefault((ix, s[1][0]), []).append(s[2][1][0])
        sinks = []
        def add(k, *w):
            if k not in T: work.append(k)
        while work:
            k = work.pop()
            if k in T: continue
            T.add(k)
            ix, l = k
            i = insts[ix]
            ty = p.types[i['locals'][l]]
            for x in alias.get(k, ()): add((ix, x))
            for b in self.live[ix]:
                B = i['blocks'][b]
                for s in B['s']:
                    if s[0] == '=' and any(pl[0] == l for pl in ops_of(s[2])): add((ix, s[1][0]))
                t = B['t']
                if t[0] == 'switch' and t[1][0] in ('cp', 'mv') and t[1][1][0] == l:
                    # drop flags and the like are not derived from data, so any hit is a decision on the clock
                    sinks.append((self.where(i, b), 'a branch'))
                if t[0] == 'call':
                    a = [o[1][0] if o[0] in ('cp', 'mv') else None for o in t[2]]
                    fp = t[1].get('ptr')
                    if l in a or (fp and fp[0] in ('cp', 'mv') and fp[1][0] == l):
                        ce = t[1].get('inst')
                        if ce in insts:
                            for n_, x in enumerate(a):
                                if x == l: add((ce, n_ + 1))
                        else:
                            add((ix, t[3][0]))
                            for x in a:
                                if x is None: continue
                                xt = p.types[i['locals'][x]]
                                if xt['k'] == 'ref' and xt['mut']: add((ix, x))
                                if xt['k'] == 'closure' and xt.get('inst') in insts:
                                    for q in range(1, insts[xt['inst']]['argc'] + 1): add((xt['inst'], q))
            if l == 0:
                for cx, b in callers.get(ix, ()): add((cx, insts[cx]['blocks'][b]['t'][3][0]))
                if i['def'].startswith('probe::'): sinks.append((c.loc(i['def'][7:]), 'the result'))
            elif 1 <= l <= i['argc'] and ty['k'] == 'ref' and ty['mut']:
                for cx, b in callers.get(ix, ()):
                    o = insts[cx]['blocks'][b]['t'][2]
                    if l - 1 < len(o) and o[l - 1][0] in ('cp', 'mv'): add((cx, o[l - 1][1][0]))
                if i['def'].startswith('probe::'): sinks.append((c.loc(i['def'][7:]), 'an object it is given'))
            # captured by a closure that is then called by name
            if ty['k'] == 'closure' and ty.get('inst') in insts: add((ty['inst'], 1))
        if sinks: c.violation('no result or decision depends on the clock', sinks[0][0], 'a clock reading (%s) reaches %s' % (', '.join(n for _, _, n in self.clock[:2]), sinks[0][1]))
        else: c.proved('no result or decision depends on the clock', '%d clock readings, %d variables they reach' % (len(self.clock), len(T)))
        # what carries a clock reading may only be text that is never printed, or the reading itself
        c.notes.append('clock readings at: %s' % ', '.join(self.where(insts[ix], b) for ix, b, _ in self.clock) if self.clock else 'no clock readings')


def P32(c):
    c.rule('effect analysis over every function and closure of the crate: call sites outside the crate are matched against effectful interfaces (blocks behind constant-false conditions excluded), statics are typed, clock readings are followed through the data flow')
    def go():
        e = Effects(c)
        for i in e.mine: c.visited.add(i['ix'])
        e.direct()
        e.statics()
        e.taint()
    c.guard('effects', go)


OPQ = (0xFF000000, 0xFFFFFFFF)


def P02(c):
    from props_utils import argb
    from props_hct import HN, getters, symvc, vcval, Opt
    from props_dyn import keyh, PALS, symbols, scheme_args, CN
    from props_quant import wu, box
    from spec_cam import std
    c.rule('interval analysis with gate splitting: every colour a computation returns lies in 0xFF000000..0xFFFFFFFF, for all inputs; each layer takes the range of the colours below it from the obligations of the layer below')
    I64_ = (-(1 << 63), (1 << 63) - 1)
    anyi = lambda n: ivar('P02.' + n, *I64_)
    f = lambda n, lo, hi, **k: fvar('P02.' + n, lo, hi, **k)
    kh = keyh(c)
    def opaque(name, root, names, mk, view=None, extra=None, hooks=None, assume=(), **kw):
        """the abstract run; a translucent result must persist with every lower function inlined"""
        def one(abstract):
            E = Env(c, names, abstract, extra if abstract else None)
            I = c.interp(dict(E.h, **(hooks or {})), **kw); st = State()
            for a in assume: st.ctx = st.ctx.assume(a, True)
            args = mk(I, st)
            ctx = st.ctx
            v, s = I.run_root(root, args, st)
            c.visited |= I.visited; c.asserts += I.asserts
            if v is None: return c.violation(name, c.loc(root), 'never returns normally')
            if view is not None: v = view(I, s, v, args)
            c.inrange(name, c.loc(root), v, *OPQ, ctx=ctx, J=I, st=s)
        def go():
            if 'probe::' + root not in c.p.roots: raise Unsupported('entry point behind probe %s not found' % root)
            m0, n0 = len(c.ob), len(c.viol)
            one(True)
            if len(c.viol) > n0 and names:
                ob, vi = c.ob[m0:], c.viol[n0:]
                del c.ob[m0:]; del c.viol[n0:]
                try: one(False)
                except (Unsupported, RecursionError, MemoryError) as e:
                    del c.ob[m0:]; del c.viol[n0:]
                    c.ob += ob; c.viol += vi
        c.guard(name, go)
    # layer 1: conversions, any input
    x, y, z = (f(n, -1e6, 1e6, specials=(0, 100)) for n in 'xyz')
    opaque('packing any integers', 'cu_argb_from_rgb', [], lambda I, st: [anyi('r'), anyi('g'), anyi('b')])
    opaque('linear RGB', 'cu_argb_from_linrgb', [], lambda I, st: [Vec([x, y, z])])
    opaque('XYZ', 'cu_argb_from_xyz', [], lambda I, st: [x, y, z])
    opaque('L*a*b*', 'cu_argb_from_lab', [], lambda I, st: [x, y, z])
    opaque('L*', 'cu_argb_from_lstar', [], lambda I, st: [x])
    opaque('L*a*b* points', 'lab_to_int', [], lambda I, st: [x, y, z])
    # layer 2: appearance model and solver
    L1 = ['cu_argb_from_xyz']
    vc = symvc(c.p)
    def cam(I, st): return I.new(st, I.run_root('cam_from_jch', [f('j', -50, 200, specials=(0, 100)), f('c', -50, 300, specials=(0,)), f('h', -720, 720)], st)[0])
    opaque('appearance to colour', 'cam_to_int', L1, lambda I, st: [cam(I, st)])
    opaque('appearance to colour in any viewing conditions', 'cam_viewed', L1, lambda I, st: [cam(I, st), I.new(st, vcval(c.p, vc))])
    lin = Env(c, []).target('cu_argb_from_linrgb')
    def lh(I, st, args, ce):
        o, tg = [], []
        for a in args: flat(I, st, a, o, tg)
        return uf('cu_argb_from_linrgb', 'i', o, *OPQ)
    h, ch, t = f('hue', -720, 720), f('chroma', -10, 300, specials=(0, 0.0001)), f('tone', -50, 200, specials=(0, 100, 0.0001, 99.9999))
    opaque('solver', 'hs_solve_to_int', ['cu_argb_from_lstar'], lambda I, st: [h, ch, t], hooks={lin['sdef']: lh} if lin else {})
    # layer 3 and above: the solver's answers are opaque
    toint = lambda I, s, v, A_: getters(I, s, v)[3]
    opaque('HCT from hue, chroma, tone', 'hct_from', HN, lambda I, st: [h, ch, t], view=toint)
    for n in ('hct_set_hue', 'hct_set_chroma', 'hct_set_tone'):
        opaque(n, n, HN, lambda I, st: [I.new(st, I.run_root('hct_from_int', [argb()], st)[0]), f('w', -1000, 1000)], view=lambda I, s, v, A_: getters(I, s, A_[0])[3])
    opaque('HCT in other viewing conditions', 'hct_in_vc', HN + ['cam_xyz_vc', 'cam_from_xyz_vc', 'cu_lstar_from_y'], lambda I, st: [I.new(st, I.run_root('hct_from_int', [argb()], st)[0]), I.new(st, vcval(c.p, vc))], view=toint)
    pal = lambda I, st: I.new(st, I.run_root('tp_of', [h, ch], st)[0])
    tone = ivar('P02.t', -50, 150)
    opaque('palette colour of any tone', 'tp_get', HN, lambda I, st: [pal(I, st), tone], extra=kh)
    opaque('palette HCT of any tone', 'tp_get_hct', HN, lambda I, st: [pal(I, st), t], extra=kh, view=toint)
    opaque('palette list', 'tp_get_as_list', HN, lambda I, st: [pal(I, st)], extra=kh)
    opaque('palette key colour', 'tp_create_key_color', HN, lambda I, st: [f('hue1', 0, 360), f('chroma1', 0, 150)], view=toint)
    cols = [ivar('P02.col%d' % i, *OPQ) for i in range(13)]
    opaque('palette from a list: other tones', 'tp_get', HN, lambda I, st: [I.new(st, I.run_root('tp_from_list', [I.new(st, Vec(cols))], st)[0]), 37], extra=kh)
    opaque('core palette list', 'cp_as_list', HN, lambda I, st: [I.new(st, I.run_root('cp_of', [argb()], st)[0])], extra=kh)
    opaque('content core palette list', 'cp_as_list', HN, lambda I, st: [I.new(st, I.run_root('cp_content_of', [argb()], st)[0])], extra=kh)
    for n in ('sch_light', 'sch_dark', 'sch_light_content', 'sch_dark_content'): opaque('%s scheme: every role' % n[4:], n, HN, lambda I, st: [argb()], extra=kh)
    P_, src, dark, level = symbols()
    from spec_roles import R as ROLES
    for n in ROLES:
        opaque('role %s' % n, 'sget_' + n, HN + CN, lambda I, st: [I.new(st, scheme_args(c, I, st, 'TonalSpot', P_, src, dark, level))], extra=kh, unroll=4)
    a, b, k = argb('P02.from'), argb('P02.to'), f('amount', 0, 1)
    opaque('harmonize', 'bl_harmonize', HN, lambda I, st: [a, b])
    opaque('hue blend', 'bl_hct_hue', HN + ['cam_to_int', 'cam_from_ucs', 'cam_from_ucs_vc'], lambda I, st: [a, b, k])
    opaque('CAM16-UCS blend', 'bl_cam16_ucs', HN + ['cam_to_int', 'cam_from_ucs', 'cam_from_ucs_vc'], lambda I, st: [a, b, k])
    q = ivar('P02.q', *OPQ)
    opaque('disliked colour fixed', 'dl_fix', HN, lambda I, st: [I.new(st, I.run_root('hct_from_int', [q], st)[0])], view=toint)
    opaque('no theme colour found: the fallback', 'sc_score', HN, lambda I, st: [I.new(st, Map([])), Opt(None), Opt(None), Opt(None)])

    def mean():
        from props_quant import ix, N
        bx = (0, 8, 0, 8, 0, 8)
        t_ = [[0] * N for _ in range(4)]
        w = ivar('P02.weight', 0, 1 << 30)
        for k, nm in enumerate('wrgb'): t_[k][ix(8, 8, 8)] = w if k == 0 else ivar('P02.sum_' + nm, 0, 255 << 30)
        opaque('mean colour of a box of pixels', 'wu_create_result', [], lambda I, st: [I.new(st, wu(c.p, [Vec(x) for x in t_] + [Vec(())], [box(c.p, bx, 9)])), 1])
    c.guard('mean colour of a box of pixels', mean)


def P33(c):
    from props_utils import argb
    from props_hct import HN, symvc, vcval, Opt
    from props_dyn import keyh, PALS, symbols, scheme_args, CN, VARIANTS
    from spec_roles import R as ROLES
    c.rule('abstract interpretation of every public entry point on unconstrained integers and finite floats: each panic site (index, unwrap, overflow, division, explicit panic) reached on the way has an unsatisfiable path condition; a reported site comes with concrete inputs satisfying it')
    # quantizers, scoring and the temperature cache: the scenarios of their own properties, looked at for panics alone
    from props_quant import P26, P27
    from props_score import P28
    from props_temp import P29
    from props_pal import P24
    from props_dyn import P19
    for g in (P29, P27, P26, P28, P24, P19):
        def sub(g=g):
            c.panics_only = True
            c.child, c.jobs, c.ncpu = False, [], 3
            g(c)
            c.join()
        c.par(c.guard, g.__name__ + ' scenarios', sub)
    nv = [0]
    def i(lo=-(1 << 63), hi=(1 << 63) - 1, **k): nv[0] += 1; return ivar('P33.i%d' % nv[0], lo, hi, **k)
    def f(lo=-1e12, hi=1e12, **k): nv[0] += 1; return fvar('P33.f%d' % nv[0], lo, hi, specials=(0, 100, 360, -1, 50, 0.5), **k)
    kh = keyh(c)
    def total(root, names, mk, extra=None, tag='', **kw):
        name = (root + ' ' + tag).strip()
        def one(abstract):
            E = Env(c, [n for n in names if n != root], abstract, extra if abstract else None)
            I = c.interp(E.h, **kw); st = State()
            v, s = I.run_root(root, mk(I, st), st)
            c.visited |= I.visited; c.asserts += I.asserts
            n0 = len(c.viol)
            c.check_panics(name, root, I)
            if len(c.viol) == n0:
                if v is None: c.violation(name, c.loc(root), 'never returns normally')
                elif not I.panics: c.proved('%s: no panic' % name, 'every panic site on the way is unreachable')
                else: c.agree('%s: no panic' % name, '%d panic sites not refuted by the path condition; no input reaching them found' % len({x[:3] for x in I.panics}))
        def go():
            if 'probe::' + root not in c.p.roots: raise Unsupported('entry point behind probe %s not found' % root)
            m0, n0 = len(c.ob), len(c.viol)
            one(True)
            if len(c.viol) > n0 and names:
                ob, vi = c.ob[m0:], c.viol[n0:]
                del c.ob[m0:]; del c.viol[n0:]
                try: one(False)
                except (Unsupported, RecursionError, MemoryError):
                    del c.ob[m0:]; del c.viol[n0:]
                    c.ob += ob; c.viol += vi
        c.guard(name, go)
    S = lambda *a: (lambda I, st: list(a))
    total('cu_argb_from_rgb', [], S(i(), i(), i()))
    total('cu_argb_from_linrgb', [], lambda I, st: [Vec([f(), f(), f()])])
    for n in ('cu_alpha_from_argb', 'cu_red_from_argb', 'cu_green_from_argb', 'cu_blue_from_argb', 'cu_is_opaque', 'cu_xyz_from_argb', 'cu_lab_from_argb', 'cu_lstar_from_argb', 'lab_from_int', 'mu_sanitize_degrees_int'): total(n, [], S(i()))
    total('cu_linearized', [], S(i(0, 255)))
    for n in ('cu_argb_from_lstar', 'cu_y_from_lstar', 'cu_lstar_from_y', 'cu_delinearized', 'mu_signum', 'mu_sanitize_degrees_double', 'dc_enable_light_foreground', 'dc_prefers_light', 'dc_allows_light'): total(n, [], S(f()))
    for n in ('cu_argb_from_xyz', 'cu_argb_from_lab', 'lab_to_int', 'mu_lerp', 'mu_clamp_double', 'tc_is_between'): total(n, [], S(f(), f(), f()))
    total('mu_clamp_int', [], S(i(), i(), i()))
    for n in ('mu_rotation_direction', 'mu_difference_degrees', 'ct_ratio_of_tones', 'ct_lighter', 'ct_darker', 'ct_lighter_unsafe', 'ct_darker_unsafe'): total(n, [], S(f(), f()))
    total('dc_foreground_tone', CN, S(f(), f()))
    total('su_hex_from_argb', [], lambda I, st: [i(0, 0xFFFFFFFF), Opt(bvar('P33.hash'))])
    total('su_hex_from_argb', [], lambda I, st: [i(0, 0xFFFFFFFF), Opt(None)], tag='(default)')
    total('cc_get', [], lambda I, st: [I.new(st, I.run_root('cc_new', [f(), f(), f(), f()], st)[0]), f()])
    vc = symvc(c.p)
    V_ = lambda I, st: I.new(st, vcval(c.p, vc))
    total('vc_make', [], lambda I, st: [Opt(Vec([f(1, 200), f(1, 200), f(1, 200)])), Opt(f(-10, 1e4)), Opt(f(-10, 200)), Opt(f(0, 2)), Opt(bvar('P33.d'))])
    total('cam_from_int', [], S(i(0, 0xFFFFFFFF)))
    total('cam_from_int_vc', [], lambda I, st: [i(0, 0xFFFFFFFF), V_(I, st)])
    total('cam_from_xyz_vc', [], lambda I, st: [f(-500, 500), f(-500, 500), f(-500, 500), V_(I, st)])
    for n in ('cam_from_jch', 'cam_from_ucs'): total(n, [], S(f(-500, 500), f(-500, 500), f(-1000, 1000)))
    for n in ('cam_from_jch_vc', 'cam_from_ucs_vc'): total(n, [], lambda I, st: [f(-500, 500), f(-500, 500), f(-1000, 1000), V_(I, st)])
    cam = lambda I, st: I.new(st, I.run_root('cam_from_jch', [f(-50, 200), f(-50, 300), f(-720, 720)], st)[0])
    total('cam_to_int', [], lambda I, st: [cam(I, st)])
    total('cam_viewed', [], lambda I, st: [cam(I, st), V_(I, st)])
    total('cam_distance', [], lambda I, st: [cam(I, st), cam(I, st)])
    for n in ('hs_solve_to_int', 'hs_solve_to_cam'): total(n, ['cam_from_int'], S(f(-1e4, 1e4), f(-100, 1e4), f(-1e4, 1e4)))
    hct = lambda I, st: I.new(st, I.run_root('hct_from_int', [argb('P33.argb')], st)[0])
    for n in ('hct_new', 'hct_from_int'): total(n, HN, S(i(0, 0xFFFFFFFF)))
    total('hct_from', HN, S(f(), f(), f()))
    for n in ('hct_set_hue', 'hct_set_chroma', 'hct_set_tone'): total(n, HN, lambda I, st: [hct(I, st), f()])
    for n in ('hct_to_string', 'dl_is_disliked', 'dl_fix', 'tp_from_hct'): total(n, HN, lambda I, st: [hct(I, st)], extra=kh)
    total('hct_in_vc', HN + ['cam_xyz_vc', 'cam_from_xyz_vc'], lambda I, st: [hct(I, st), V_(I, st)])
    for n in ('bl_harmonize',): total(n, HN, S(i(0, 0xFFFFFFFF), i(0, 0xFFFFFFFF)))
    for n in ('bl_hct_hue', 'bl_cam16_ucs'): total(n, HN + ['cam_to_int', 'cam_from_ucs', 'cam_from_ucs_vc'], S(i(0, 0xFFFFFFFF), i(0, 0xFFFFFFFF), f()))
    hue, chroma = fvar('P33.hue', -1e4, 1e4), fvar('P33.chroma', -100, 1e4)
    pal = lambda I, st: I.new(st, I.run_root('tp_of', [hue, chroma], st)[0])
    total('tp_of', HN, S(hue, chroma), extra=kh)
    total('tp_create_key_color', HN, S(fvar('P33.hue1', 0, 360), fvar('P33.chroma1', 0, 200)))
    total('tp_get', HN, lambda I, st: [pal(I, st), i()], extra=kh)
    total('tp_get_hct', HN, lambda I, st: [pal(I, st), f()], extra=kh)
    for n in ('tp_get_as_list', 'tp_to_string'): total(n, HN, lambda I, st: [pal(I, st)], extra=kh)
    for n in ('cp_of', 'cp_content_of', 'sch_light', 'sch_dark', 'sch_light_content', 'sch_dark_content'): total(n, HN, S(i(0, 0xFFFFFFFF)), extra=kh)
    for n in ('cp_as_list', 'cp_to_string'): total(n, HN, lambda I, st: [I.new(st, I.run_root('cp_of', [argb('P33.argb')], st)[0])], extra=kh)
    for n in ('expressive', 'fruit_salad', 'monochrome', 'neutral', 'rainbow', 'tonal_spot', 'vibrant'):
        total('scheme_' + n, HN, lambda I, st: [I.load(st, hct(I, st)), bvar('P33.dark'), f(-10, 10)], extra=kh)
    P_, src, dark, level = symbols()
    for n in ROLES:
        total('sget_' + n, HN + CN, lambda I, st: [I.new(st, scheme_args(c, I, st, 'Vibrant', P_, src, dark, level))], extra=kh, unroll=4)
        total('role_' + n, [], S())
