"""Public functions of the crate as summaries.

A property of one layer is stated over the functions of the layers below.  In an *abstract* environment
those lower functions are replaced, at every call site, by uninterpreted symbols of their (flattened)
arguments; in a *concrete* environment they are inlined and the rule is written with the value graphs of
the very same functions.  The abstract run is fast and decides almost everything; a disagreement found
there is only reported if it persists in the concrete environment (where the callee graphs are exact),
so that rewriting a caller to bypass a lower-level entry point without changing values is not an alarm.
"""
import re
from frame import *
from terms import T
from interp import is_scalar

# declared result ranges: established by P02 / P12
DECL = {
    'hs_solve_to_int': {'': (0xFF000000, 0xFFFFFFFF)},
    'cu_argb_from_lstar': {'': (0xFF000000, 0xFFFFFFFF)},
    'cu_argb_from_xyz': {'': (0xFF000000, 0xFFFFFFFF)},
    'cu_argb_from_lab': {'': (0xFF000000, 0xFFFFFFFF)},
    'cu_argb_from_rgb': {'': (0xFF000000, 0xFFFFFFFF)},
    'cam_to_int': {'': (0xFF000000, 0xFFFFFFFF)},
    'cam_viewed': {'': (0xFF000000, 0xFFFFFFFF)},
    'cu_lstar_from_argb': {'': (0.0, 100.0)},
    'cam_from_int': {'.hue': (0.0, 360.0), '.chroma': (0.0, 200.0), '.j': (0.0, 101.0)},
    'ct_ratio_of_tones': {'': (1.0, 21.0)}, 'ct_lighter': {'': (-1.0, 100.0)}, 'ct_darker': {'': (-1.0, 100.0)},
    'hct_from': {}, 'hct_from_int': {}, 'hct_new': {},
}
VLEN = {'cu_xyz_from_argb': 3, 'cu_lab_from_argb': 3, 'cam_xyz_vc': 3, 'lab_from_int': 3, 'cu_white_point_d65': 3, 'mu_matrix_multiply': 3}


def flat(I, st, v, out, tag):
    v = I.resolve(st, v)
    if type(v) is Choice: raise NeedSplit(v.c)
    if is_scalar(v): out.append(v); tag.append('s'); return
    if type(v) is Ref:
        x = I.load(st, v)
        if v.win is not None and type(x) is Vec: x = Vec(x.f[v.win[0]:v.win[0] + v.win[1]])
        flat(I, st, x, out, tag); return
    if type(v) is Agg:
        tag.append('A%s' % v.v)
        for x in v.f: flat(I, st, x, out, tag)
        return
    if type(v) is Vec:
        tag.append('V%d' % len(v.f))
        for x in v.f: flat(I, st, x, out, tag)
        return
    if type(v) is FnV: tag.append('F%s' % v.inst); return
    if type(v) is Opq:
        tag.append('O' + v.name)
        for x in v.a: flat(I, st, x, out, tag)
        return
    if type(v) is Map:
        tag.append('M%d' % len(v.e))
        for e in v.e:
            for x in e:
                if is_scalar(x) or type(x) in (Agg, Vec, Ref): flat(I, st, x, out, tag)
        return
    if type(v) is Str:
        for p in v.p:
            if type(p) is str: tag.append('t' + p)
            else: raise Unsupported('flatten symbolic string')
        return
    if v is None: tag.append('N'); return
    raise Unsupported('flatten %r' % (type(v),))


class Env:
    def __init__(self, chk, names, abstract=True, extra=None):
        self.c = chk; self.p = chk.p; self.abstract = abstract
        self.names = {}
        self.h = dict(extra or {})
        self.called = set()
        for n in names:
            t = self.target(n)
            if t is None:
                raise Unsupported('entry point behind probe %s not found' % n)
            self.names[n] = t
            if abstract: self.h[t['sdef']] = self.hook(n)

    def target(self, root):
        """the crate function a probe names"""
        ix = self.p.roots.get('probe::' + root)
        if ix is None: return None
        for b in self.p.insts[ix]['blocks']:
            t = b['t']
            if t[0] == 'call' and t[1].get('inst') is not None:
                c = self.p.insts[t[1]['inst']]
                if CR in c['def']: return c
        return None

    def build(self, I, name, ty, path, args):
        t = self.p.types[ty]; k = t['k']
        full = name + path
        rng = DECL.get(name, {}).get(path)
        if k == 'float': return uf(full, 'f', args, *(rng or (None, None)))
        if k == 'int': 
            if rng is None: rng = (-(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1) if t['signed'] else (0, (1 << t['bits']) - 1)
            return uf(full, 'i', args, *rng)
        if k == 'bool': return uf(full, 'b', args)
        if k == 'adt' and t['kind'] == 'struct' and t['name'].startswith(CR):
            return Agg(ty, 0, tuple(self.build(I, name, f['ty'] if isinstance(f, dict) else f[1], path + '.' + (f['name'] if isinstance(f, dict) else f[0]), args)
                                    for f in t['variants'][0]['fields']))
        if k == 'adt' and t['name'].endswith('vec::Vec') and name in VLEN:
            return Vec([self.build(I, name, t['args'][0], '%s[%d]' % (path, i), args) for i in range(VLEN[name])])
        raise Unsupported('summary result of type %s' % t.get('s', t))

    def sym(self, I, st, name, args):
        self.called.add(name)
        out, tag = [], []
        for a in args: flat(I, st, a, out, tag)
        t = self.names[name]
        nm = name
        tg = ''.join(tag).replace('s', '')
        h = tuple(out)
        r = self.build(I, nm, t['locals'][0], '', h) if not tg.strip('A0123456789V') else self.build_tagged(I, nm, t['locals'][0], tg, h)
        return r

    def build_tagged(self, I, nm, ty, tg, h):
        return self.build(I, nm, ty, '', h + (TT.h64('tag', tg) % 1000003,))

    def hook(self, name):
        def hk(I, st, args, ce): return self.sym(I, st, name, args)
        return hk

    def f(self, I, st, name, *args):
        """value of a lower-level public function in this environment"""
        ix = self.p.roots.get('probe::' + name)
        if ix is None: raise Unsupported('probe %s missing' % name)
        saved = I.panics; I.panics = []
        st2 = st.fork()
        r = I.call_inst(st2, ix, list(args))
        I.panics = saved
        st.mem = st2.mem
        return r


def layered(chk, name, root, names, mkargs, spec, assume=(), view=None, extra=None, panics=True, rtol=1e-9, secs=None, n=None, concrete=True, after=None, **kw):
    """the value graph of `root` equals spec(E, I, st, args), lower layers `names` abstracted first"""
    def one(abstract, soft=True):
        ex = {k: f for k, f in (extra or {}).items() if soft or not getattr(f, 'soft', False)}
        E = Env(chk, names, abstract, ex)
        I = chk.interp(E.h, **kw)
        st = State()
        for c in assume: st.ctx = st.ctx.assume(c, True)
        args = mkargs(I, st)
        ctx = st.ctx
        want = spec(E, I, st, args)
        try: v, s = I.run_root(root, args, st)
        finally:
            if after is not None: after(I)
        chk.visited |= I.visited; chk.asserts += I.asserts
        if panics: chk.check_panics(name, root, I)
        if v is None:
            chk.violation(name, chk.loc(root), 'never returns normally on the domain'); return
        if view is not None: v = view(I, s, v, args)
        chk.same(name, chk.loc(root), v, want, ctx, I, s, secs=secs, n=n, rtol=rtol)
    def go():
        m0, n0 = len(chk.ob), len(chk.viol)
        if 'probe::' + root not in chk.p.roots: raise Unsupported('entry point behind probe %s not found' % root)
        chk.hints, chk.harvest = (), []
        one(True)
        got, chk.harvest = chk.harvest, None
        # confirmation: the disagreement must persist at every other level of abstraction
        stages = [(True, False)] if any(getattr(f, 'soft', False) for f in (extra or {}).values()) else []
        for stage in stages + [(False, True)]:
            if len(chk.viol) == n0 or not concrete: break
            ob, vi = chk.ob[m0:], chk.viol[n0:]
            del chk.ob[m0:]; del chk.viol[n0:]
            try:
                chk.hints = got
                try: one(*stage)
                finally: chk.hints = ()
                few = [d for _, v, d in chk.ob[m0:] if v == 'agree' and not (re.search(r'on (\d+) val', d) and int(re.search(r'on (\d+) val', d).group(1)) >= 200)]
                if len(chk.viol) == n0 and few:
                    # neither proved nor refuted at this level, and hardly compared: the disagreement stands
                    del chk.ob[m0:]
                    chk.ob += ob; chk.viol += vi
            except (Unsupported, RecursionError, MemoryError) as e:
                chk.notes.append('confirmation of %s not possible: %s' % (name, e))
                del chk.ob[m0:]; del chk.viol[n0:]
                chk.ob += ob; chk.viol += vi
    chk.par(chk.guard, name, go)
