"""Abstract interpreter over monomorphic MIR.

Abstract state: memory of value trees whose scalars are terms (terms.py) + path facts (ctx.py).
Branches on undecided conditions are analysed separately and joined at the immediate
post-dominator with gates; calls are inlined; library collections/iterators are modelled.
"""
import time, functools, json, math, re, struct, sys
from terms import *
import terms as TT
from ctx import Ctx, Infeasible, simplify

sys.setrecursionlimit(200000)


LIMIT = [float('inf')]        # when to give up


class Unsupported(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, cond): self.cond = cond


class Diverge(Exception):
    """the current path cannot continue (panic or infeasible)"""


class Agg:
    __slots__ = ('ty', 'v', 'f')

    def __init__(self, ty, v, f): self.ty = ty; self.v = v; self.f = f
    def __repr__(self): return 'Agg<%s>#%s%r' % (self.ty, self.v, self.f)


class PSeq:
    """long immutable sequence in chunks: replacing one element copies one chunk"""
    __slots__ = ('c', 'n')
    K = 160

    def __init__(self, f=None, c=None, n=0):
        if c is None:
            f = tuple(f); n = len(f)
            c = tuple(f[i:i + self.K] for i in range(0, n, self.K))
        self.c = c; self.n = n

    def __len__(self): return self.n

    def __iter__(self):
        for x in self.c: yield from x

    def __getitem__(self, i):
        if type(i) is slice: return tuple(self)[i]
        if i < 0: i += self.n
        if not 0 <= i < self.n: raise IndexError(i)
        return self.c[i // self.K][i % self.K]

    def __add__(self, o): return tuple(self) + tuple(o)
    def __radd__(self, o): return tuple(o) + tuple(self)

    def set(self, i, v):
        k, j = divmod(i, self.K)
        x = self.c[k]
        return PSeq(c=self.c[:k] + (x[:j] + (v,) + x[j + 1:],) + self.c[k + 1:], n=self.n)


class Vec:
    """owned sequence: Vec<T>, [T; N], boxed slices"""
    __slots__ = ('f',)
    def __init__(self, f):
        if type(f) is not PSeq:
            f = tuple(f)
            if len(f) > 2000: f = PSeq(f)
        self.f = f
    def __repr__(self): return 'Vec%r' % (self.f,)


class Map:
    """hash map / hash set with a known list of entries; order = insertion order (unspecified at run time)"""
    __slots__ = ('e', 'kty')
    def __init__(self, e=(), kty=None): self.e = tuple(e); self.kty = kty
    def __repr__(self): return 'Map%r' % (self.e,)


class Ref:
    __slots__ = ('key', 'path', 'win')

    def __init__(self, key, path=(), win=None): self.key = key; self.path = path; self.win = win
    def __repr__(self): return '&%s%s%s' % (self.key, list(self.path), '' if self.win is None else list(self.win))
    def __eq__(self, o): return type(o) is Ref and self.key == o.key and self.path == o.path and self.win == o.win
    def __hash__(self): return hash((self.key, self.path))


class Str:
    """string: sequence of parts, each a python str or ('hex'|'disp'..., term)"""
    __slots__ = ('p',)

    def __init__(self, p): self.p = tuple(p)
    def __repr__(self): return 'Str%r' % (self.p,)


class Opq:
    """opaque value identified by a name and argument values"""
    __slots__ = ('name', 'a')

    def __init__(self, name, a=()): self.name = name; self.a = tuple(a)
    def __repr__(self): return '%s%r' % (self.name, self.a)
    def __eq__(self, o): return type(o) is Opq and self.name == o.name and len(self.a) == len(o.a) and all(val_same(x, y) for x, y in zip(self.a, o.a))
    def __hash__(self): return hash(self.name)


class Choice:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return 'Choice(%r ? %r : %r)' % (self.c, self.a, self.b)


class FnV:
    __slots__ = ('ty', 'inst')

    def __init__(self, ty, inst): self.ty = ty; self.inst = inst
    def __repr__(self): return 'fn%s' % self.inst
    def __eq__(self, o): return type(o) is FnV and o.inst == self.inst
    def __hash__(self): return hash(self.inst)


class It:
    """lazy iterator"""
    __slots__ = ('k', 'a')

    def __init__(self, k, *a): self.k = k; self.a = a
    def __repr__(self): return 'It(%s,%r)' % (self.k, self.a)


UNIT = Agg(None, 0, ())
NUM = (int, float, bool, T)


def is_scalar(v): return type(v) in NUM or isinstance(v, NUM)


def val_same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if type(a) is T: return False
    if type(a) in (int, bool): return a == b
    if type(a) is float: return a == b or (a != a and b != b)
    if type(a) is Agg: return a.v == b.v and len(a.f) == len(b.f) and all(val_same(x, y) for x, y in zip(a.f, b.f))
    if type(a) is Vec: return len(a.f) == len(b.f) and all(val_same(x, y) for x, y in zip(a.f, b.f))
    if type(a) is Map: return len(a.e) == len(b.e) and all(val_same(x[0], y[0]) and val_same(x[1], y[1]) for x, y in zip(a.e, b.e))
    if type(a) is Str: return a.p == b.p
    if type(a) is It: return a.k == b.k and len(a.a) == len(b.a) and all(val_same(x, y) for x, y in zip(a.a, b.a))
    if type(a) is Choice: return a.c is b.c and val_same(a.a, b.a) and val_same(a.b, b.b)
    if a is None: return True
    if type(a) is tuple: return len(a) == len(b) and all(val_same(x, y) for x, y in zip(a, b))
    try: return a == b
    except Exception: return False


def merge(c, a, b):
    """value of `if c {a} else {b}`"""
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if a is None: return b
    if b is None: return a
    if is_scalar(a) and is_scalar(b):
        if sort_of(a) == sort_of(b): return ite(c, a, b)
        return Choice(c, a, b)
    ta, tb = type(a), type(b)
    if ta is Agg and tb is Agg and a.v == b.v and len(a.f) == len(b.f) and (a.ty == b.ty or a.ty is None or b.ty is None):
        if all(x is y for x, y in zip(a.f, b.f)): return a
        return Agg(a.ty if a.ty is not None else b.ty, a.v, tuple(merge(c, x, y) for x, y in zip(a.f, b.f)))
    if ta is Vec and tb is Vec and type(a.f) is PSeq and type(b.f) is PSeq and a.f.n == b.f.n:
        return Vec(PSeq(c=tuple(x if x is y else tuple(merge(c, p, q) for p, q in zip(x, y)) for x, y in zip(a.f.c, b.f.c)), n=a.f.n))
    if ta is Vec and tb is Vec and len(a.f) == len(b.f):
        return Vec(merge(c, x, y) for x, y in zip(a.f, b.f))
    if ta is Map and tb is Map and len(a.e) == len(b.e) and all(val_same(x[0], y[0]) for x, y in zip(a.e, b.e)):
        return Map([(x[0], merge(c, x[1], y[1])) for x, y in zip(a.e, b.e)], a.kty)
    if ta is It and tb is It and a.k == b.k and len(a.a) == len(b.a) and all(type(x) is type(y) or (is_scalar(x) and is_scalar(y)) for x, y in zip(a.a, b.a)):
        try: return It(a.k, *[x if val_same(x, y) else merge_strict(c, x, y) for x, y in zip(a.a, b.a)])
        except ValueError: pass
    if val_same(a, b): return a
    if c.op == 'not': return Choice(c.a[0], b, a)
    return Choice(c, a, b)


def merge_strict(c, x, y):
    if type(x) is tuple or type(x) is bool or x is None: raise ValueError
    r = merge(c, x, y)
    return r


class State:
    __slots__ = ('mem', 'ctx')

    def __init__(self, mem=None, ctx=None):
        self.mem = {} if mem is None else mem
        self.ctx = Ctx() if ctx is None else ctx

    def fork(self): return State(dict(self.mem), self.ctx)


READONLY = {'clone', 'index', 'len', 'is_empty', 'deref', 'as_ref', 'unwrap', 'expect', 'first', 'last', 'borrow', 'get', 'abs', 'round', 'floor', 'ceil', 'sqrt', 'powf', 'cos', 'sin', 'atan2', 'min', 'max', 'partial_cmp', 'into_iter', 'iter', 'to_vec', 'new', 'is_none', 'is_some', 'unwrap_or'}


@functools.lru_cache(None)
def strip_generics(s):
    o = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith('::<', i):
            d = 0
            j = i + 2
            while j < n:
                if s[j] == '<': d += 1
                elif s[j] == '>' and s[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            # keep `::<impl ...>` heads
            if s.startswith('::<impl', i):
                o.append(s[i:j + 1])
            i = j + 1
            continue
        o.append(s[i]); i += 1
    return ''.join(o)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']; self.insts = d['insts']; self.roots = d['roots']; self.repo_fns = d['repo_fns']
        self.statics = d['statics']; self.repo_statics = d['repo_statics']; self.repo_generic = d['repo_generic']
        for i, x in enumerate(self.insts):
            x['ix'] = i
            x['sdef'] = strip_generics(x['def'])
        self.by_adt = {}
        for i, t in enumerate(self.types):
            if t['k'] == 'adt': self.by_adt.setdefault(t['name'], []).append(i)
        self.const_cache = {}
        self.constmem = {}
        self.cfg = {}
        self.raw = d

    def adt(self, suffix):
        c = [i for n, l in self.by_adt.items() if n == suffix or n.endswith('::' + suffix) for i in l]
        return c[0]

    def ipdom(self, inst):
        r = self.cfg.get(inst['ix'])
        if r is not None: return r
        bl = inst['blocks']
        n = len(bl)
        succ = [succs(b['t']) for b in bl]
        EXIT = n
        # blocks that can reach return
        pred = [[] for _ in range(n + 1)]
        for i in range(n):
            if bl[i]['t'][0] == 'ret': succ[i] = [EXIT]
            for s in succ[i]: pred[s].append(i)
        reach = {EXIT}
        st = [EXIT]
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in reach: reach.add(p); st.append(p)
        # post-order on reverse graph
        order = []
        seen = set()
        def dfs(r):
            stack = [(r, iter(pred[r]))]
            seen.add(r)
            while stack:
                x, it = stack[-1]
                for p in it:
                    if p not in seen and p in reach:
                        seen.add(p); stack.append((p, iter(pred[p]))); break
                else:
                    order.append(x); stack.pop()
        dfs(EXIT)
        num = {b: i for i, b in enumerate(order)}
        idom = {EXIT: EXIT}
        rpo = order[::-1]
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == EXIT: continue
                new = None
                for s in succ[b]:
                    if s in idom and s in reach:
                        if new is None: new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while num[x] < num[y]: x = idom[x]
                                while num[y] < num[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        r = {b: idom.get(b) for b in range(n)}
        self.cfg[inst['ix']] = r
        return r


def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    if k == 'drop': return [t[2]]
    return []


class Interp:
    def __init__(self, prog, hooks=None, budget=4_000_000, loop_limit=20000, unroll=None, ieee=False, maprev=False, nojoin=()):
        self.nojoin = nojoin        # functions analysed path by path, without joins
        self.p = prog
        self.hooks = hooks or {}
        self.fid = 0
        self.hid = 0
        self.panics = []       # (site, kind, ctx)
        self.steps = 0
        self.budget = budget
        self.stack = []
        self.visited = set()   # instances analysed
        self.modelled = {}
        self.unsup = []
        self.events = []
        self.maxdepth = 220
        self.asserts = 0
        self.iters = 0
        self.cur = None
        o = prog.by_adt.get('std::cmp::Ordering')
        self.ordty = o[0] if o else None
        self.loop_limit = loop_limit
        self.unroll = unroll   # undecided nested re-entries of one branch in one frame before the path is cut
        self.nest = {}
        self.cuts = []
        self.maprev = maprev   # visit hash maps in the opposite order
        self.ieee = ieee       # keep double-precision rounding in sums and products

        self._ro = {}

    # ------------------------------------------------------------ memory
    def new(self, st, val, tag='h'):
        self.hid += 1
        k = (tag, self.hid)
        st.mem[k] = val
        return Ref(k)

    def root(self, st, key):
        try: return st.mem[key]
        except KeyError:
            if key in self.p.constmem: return self.p.constmem[key]
            raise Unsupported('read of uninitialised %r' % (key,))

    def load(self, st, ref):
        v = self.root(st, ref.key)
        for s in ref.path: v = self.step(st, v, s)
        v = self.resolve(st, v)
        if ref.win is not None:
            return v
        return v

    def resolve(self, st, v):
        while type(v) is T and v.op == 'ite':
            d = st.ctx.decide(v.a[0])
            if d is None: return v
            v = v.a[1] if d else v.a[2]
        while type(v) is Choice:
            d = st.ctx.decide(v.c)
            if d is True: v = v.a
            elif d is False: v = v.b
            else: break
        return v

    def step(self, st, v, s):
        t = type(v)
        if t is Choice:
            d = st.ctx.decide(v.c)
            if d is True: return self.step(st, v.a, s)
            if d is False: return self.step(st, v.b, s)
            # fields valid only in one arm (variants): take what exists
            dv = 0
            try: x = self.step(st, v.a, s)
            except Unsupported: x = None
            except Diverge: x = None; dv += 1
            try: y = self.step(st, v.b, s)
            except Unsupported: y = None
            except Diverge: y = None; dv += 1
            if dv == 2: raise Diverge()
            if x is None and y is None: raise Unsupported('step into choice')
            return merge(v.c, x, y)
        if t is Agg:
            if type(s) is int:
                if s < len(v.f):
                    r = v.f[s]
                    return r
                raise Unsupported('field %d of %r' % (s, v))
        if t is Vec:
            if type(s) is int:
                if 0 <= s < len(v.f): return v.f[s]
                raise Unsupported('index %d of vec len %d' % (s, len(v.f)))
            return self.symindex(st, v, s)
        if t is Ref or t is FnV: return v          # Box/Unique/NonNull wrappers
        if t is Map and type(s) is tuple and s[1] >= len(v.e): raise Unsupported('entry %d of a map of %d' % (s[1], len(v.e)))
        if t is Map and type(s) is tuple and s[0] == 'mv':
            return v.e[s[1]][1]
        if t is Map and type(s) is tuple and s[0] == 'mk':
            return v.e[s[1]][0]
        if t is Opq:
            h = self.hooks.get(('field', v.name))
            if h: return h(self, st, v, s)
            raise Unsupported('field %r of opaque %s' % (s, v.name))
        if t is Str or t is It: return v
        if is_scalar(v) and s == 0: return v       # transparent newtype (NonZero, Discriminant…)
        raise Unsupported('step %r into %r' % (s, v if not is_scalar(v) else show(v)))

    def symindex(self, st, v, i):
        lo, hi = st.ctx.iv(i)
        n = len(v.f)
        lo = max(lo, 0); hi = min(hi, n - 1)
        if lo > hi: raise Diverge()
        if lo == hi: return v.f[lo]
        els = v.f[lo:hi + 1]
        if len(els) > 6 and all(type(x) is float for x in els) or (len(els) > 6 and all(type(x) is int for x in els)):
            name = 'tab%x' % h64(v.f)
            return select(name, i, list(v.f))
        r = v.f[hi]
        for k in range(hi - 1, lo - 1, -1):
            r = merge(eq(i, k), v.f[k], r)
        return r

    def store(self, st, ref, val):
        if not ref.path:
            if ref.key[0] == 'k': raise Unsupported('store to constant')
            st.mem[ref.key] = val
            return
        old = st.mem.get(ref.key)
        st.mem[ref.key] = self.upd(st, old, ref.path, 0, val)

    def upd(self, st, v, path, i, val):
        if i == len(path): return val
        s = path[i]
        t = type(v)
        if v is None:
            if type(s) is not int: raise Unsupported('symbolic store into uninit')
            f = [None] * (s + 1)
            f[s] = self.upd(st, None, path, i + 1, val)
            return Agg(None, 0, tuple(f))
        if t is Agg:
            f = v.f
            if s >= len(f): f = f + (None,) * (s + 1 - len(f))
            n = self.upd(st, f[s], path, i + 1, val)
            return Agg(v.ty, v.v, f[:s] + (n,) + f[s + 1:])
        if t is Vec:
            if type(s) is int:
                if not 0 <= s < len(v.f): raise Unsupported('store out of range')
                n = self.upd(st, v.f[s], path, i + 1, val)
                if type(v.f) is PSeq: return Vec(v.f.set(s, n))
                return Vec(v.f[:s] + (n,) + v.f[s + 1:])
            lo, hi = st.ctx.iv(s)
            lo = max(lo, 0); hi = min(hi, len(v.f) - 1)
            f = list(v.f)
            for k in range(lo, hi + 1):
                f[k] = merge(eq(s, k), self.upd(st, f[k], path, i + 1, val), f[k])
            return Vec(f)
        if t is Choice:
            d = st.ctx.decide(v.c)
            if d is True: return self.upd(st, v.a, path, i, val)
            if d is False: return self.upd(st, v.b, path, i, val)
            raise NeedSplit(v.c)
        if t is Map and type(s) is tuple and s[0] == 'mv':
            e = list(v.e)
            if s[1] >= len(e): raise Unsupported('entry %d of a map of %d' % (s[1], len(e)))
            k, old = e[s[1]]
            e[s[1]] = (k, self.upd(st, old, path, i + 1, val))
            return Map(e, v.kty)
        if t in (Ref, Str) and i == len(path) - 1: return val
        if is_scalar(v) and s == 0: return self.upd(st, v, path, i + 1, val)
        raise Unsupported('store into %r step %r' % (v, s))

    # place -> Ref location
    def place(self, st, fr, pl):
        loc, projs = pl
        ref = Ref((fr, loc))
        if not projs: return ref
        key, path, win = ref.key, (), None
        for p in projs:
            k = p[0]
            if k == '*':
                v = self.load(st, Ref(key, path, win))
                while type(v) is Choice:
                    d = st.ctx.decide(v.c)
                    if d is None: raise NeedSplit(v.c)
                    v = v.a if d else v.b
                if type(v) is Ref: key, path, win = v.key, v.path, v.win
                elif type(v) in (Str, Opq, It): # &str and opaque references are values themselves
                    self.hid += 1
                    key, path, win = ('t', self.hid), (), None
                    st.mem[key] = v
                else: raise Unsupported('deref of %r' % (v,))
            elif k == '.': path = path + (p[1],)
            elif k == 'v': pass
            elif k == 'i' or k == 'ci':
                if k == 'i':
                    i = self.load(st, Ref((fr, p[1])))
                else:
                    i = p[1]
                    if p[2]:
                        n = win[1] if win is not None else self.seqlen(st, Ref(key, path))
                        i = isub(n, i)
                if win is not None:
                    i = iadd(win[0], i); win = None
                if type(i) is T:
                    lo, hi = st.ctx.iv(i)
                    if lo == hi: i = lo
                path = path + (i,)
            elif k == 'ss':
                n = win[1] if win is not None else self.seqlen(st, Ref(key, path))
                o = win[0] if win is not None else 0
                to = n - p[2] if p[3] else p[2]
                win = (o + p[1], to - p[1])
            else: raise Unsupported('projection %r' % (p,))
        return Ref(key, path, win)

    def seqlen(self, st, ref):
        if ref.win is not None: return ref.win[1]
        v = self.load(st, ref)
        return self.len_of(st, v)

    def len_of(self, st, v):
        v = self.resolve(st, v)
        if type(v) is Vec: return len(v.f)
        if type(v) is Map: return len(v.e)
        if type(v) is Ref: return self.seqlen(st, v)
        if type(v) is Choice: raise NeedSplit(v.c)
        if type(v) is Opq:
            h = self.hooks.get(('len', v.name))
            if h: return h(self, st, v)
        if type(v) is Str and all(type(x) is str for x in v.p): return len(''.join(v.p).encode())
        raise Unsupported('len of %r' % (v,))

    # ------------------------------------------------------------ constants
    def const(self, ty, v):
        if 'int' in v: return int(v['int'])
        if 'bool' in v: return v['bool']
        if 'f64' in v: return struct.unpack('>d', bytes.fromhex(v['f64']))[0]
        if 'f32' in v: return struct.unpack('>f', bytes.fromhex(v['f32']))[0]
        if 'tuple' in v: return Agg(None, 0, tuple(self.const(None, x) for x in v['tuple']))
        if 'array' in v: return Vec(self.const(None, x) for x in v['array'])
        if 'adt' in v: 
            t = self.p.types[v['adt']]
            return Agg(v['adt'], v['v'], tuple(self.const(None, x) for x in v['f']))
        if 'str' in v: return Str((v['str'],))
        if 'ref' in v:
            r = v['ref']
            if 'str' in r: return Str((r['str'],))
            k = ('k', id(r))
            if k not in self.p.constmem: self.p.constmem[k] = self.const(None, r)
            return Ref(k)
        if 'fn' in v: return FnV(v['fn'], self.p.types[v['fn']].get('inst'))
        if 'fnptr' in v: return FnV(None, v['fnptr'])
        if 'zst' in v:
            t = self.p.types[v['zst']]
            if t['k'] == 'closure': return Agg(v['zst'], 0, ())
            return Agg(v['zst'], 0, ())
        if 'static' in v:
            n = v['static']
            k = ('k', 'static', n)
            if k not in self.p.constmem:
                s = self.p.statics[n]
                self.p.constmem[k] = self.const(s['ty'], s['v'])
            self.events.append(('static', n))
            return Ref(k)
        if 'unk' in v: return Opq('const:' + v['unk'])
        if 'rawaddr' in v: return Opq('rawaddr', (int(v['rawaddr']),))
        raise Unsupported('const %r' % (v,))

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'cp' or k == 'mv':
            pl = o[1]
            if not pl[1]:
                try: v = st.mem[(fr, pl[0])]
                except KeyError: raise Unsupported('uninit local _%d' % pl[0])
                return self.resolve(st, v)
            r = self.place(st, fr, pl)
            v = self.load(st, r)
            if r.win is not None and type(v) is Vec: v = Vec(v.f[r.win[0]:r.win[0] + r.win[1]])
            return v
        if k == 'c':
            return self.const(o[1], o[2])
        if k == 'rc': return False
        raise Unsupported('operand %r' % (o,))

    # ------------------------------------------------------------ rvalues
    def opty(self, inst, o):
        if o[0] == 'c': return self.p.types[o[1]]
        pl = o[1]
        if not pl[1]: return self.p.types[inst['locals'][pl[0]]]
        t = inst['locals'][pl[0]]
        for p in pl[1]:
            if p[0] == '.': t = p[2]
            elif p[0] == '*':
                ty = self.p.types[t]
                t = ty.get('to')
                if t is None: return None
            elif p[0] in ('i', 'ci'):
                ty = self.p.types[t]
                t = ty.get('elem')
                if t is None: return None
        return self.p.types[t]

    def binop(self, st, op, x, y, ty):
        if type(x) is Choice: x = self.resolve(st, x)
        if type(y) is Choice: y = self.resolve(st, y)
        if type(x) is Choice: raise NeedSplit(x.c)
        if type(y) is Choice: raise NeedSplit(y.c)
        if not (is_scalar(x) and is_scalar(y)):
            if op in ('Eq', 'Ne') and type(x) is Ref and type(y) is Ref:
                return (x == y) if op == 'Eq' else (x != y)
            if type(x) is Ref and op == 'BitAnd': return 0        # alignment test of a valid pointer
            if type(x) is Ref and type(y) is int and op in ('Eq', 'Ne'): return op == 'Ne'
            if op in ('Lt', 'Ge', 'Gt', 'Le', 'Eq', 'Ne') : raise Unsupported('cmp %s %r %r' % (op, x, y))
            raise Unsupported('binop %s on %r %r' % (op, type(x).__name__, type(y).__name__))
        if op == 'Lt': return lt(x, y) if sort_of(x) != 'b' else b_and(b_not(x), y)
        if op == 'Le': return le(x, y)
        if op == 'Gt': return gt(x, y)
        if op == 'Ge': return ge(x, y)
        if op == 'Eq': return eq(x, y)
        if op == 'Ne': return ne(x, y)
        s = sort_of(x)
        if s == 'f':
            if self.ieee:
                if op == 'Add': return TT.ieee('xadd', x, y)
                if op == 'Sub': return TT.ieee('xadd', x, fneg(y))
                if op == 'Mul': return TT.ieee('xmul', x, y)
                if op == 'Div': return TT.ieee('xdiv', x, y)
            if op == 'Add': return fadd(x, y)
            if op == 'Sub': return fsub(x, y)
            if op == 'Mul': return fmul(x, y)
            if op == 'Div': return fdiv(x, y)
            if op == 'Rem': return frem_(x, y)
        else:
            if op in ('Add', 'AddUnchecked'): r = iadd(x, y)
            elif op in ('Sub', 'SubUnchecked'): r = isub(x, y)
            elif op in ('Mul', 'MulUnchecked'): r = imul(x, y)
            elif op == 'Div': return idiv(x, y)
            elif op == 'Rem': return irem(x, y)
            elif op == 'BitAnd': return iand(x, y)
            elif op == 'BitOr': return ior(x, y)
            elif op == 'BitXor': return ixor(x, y)
            elif op in ('Shl', 'ShlUnchecked'): r = shl(x, y)
            elif op in ('Shr', 'ShrUnchecked'): return shr(x, y)
            elif op == 'Cmp':
                o = self.ordering(x, y)
                return o
            else: raise Unsupported('binop ' + op)
            if ty is not None and ty['k'] == 'int': r = wrap(r, ty['bits'], ty['signed'])
            return r
        raise Unsupported('binop %s on %s' % (op, s))

    def ordering(self, x, y):
        o = self.ordty
        return merge(lt(x, y), Agg(o, 0, ()), merge(eq(x, y), Agg(o, 1, ()), Agg(o, 2, ())))

    def cbinop(self, st, op, x, y, ty):
        if op == 'Add': r = iadd(x, y)
        elif op == 'Sub': r = isub(x, y)
        elif op == 'Mul': r = imul(x, y)
        elif op in ('Shl', 'Shr'):
            ov = b_not(b_and(ge(y, 0), lt(y, ty['bits'])))
            return Agg(None, 0, (self.binop(st, op, x, y, ty), ov))
        else: raise Unsupported('cbin ' + op)
        bits, signed = ty['bits'], ty['signed']
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        ov = b_not(b_and(ge(r, lo), le(r, hi)))
        # past the overflow assert the mathematical value is the machine value
        return Agg(None, 0, (r, ov))

    def cast(self, st, inst, kind, o, v, ty):
        t = self.p.types[ty]
        v = self.resolve(st, v)
        if kind == 'IntToInt':
            if type(v) is Choice: raise NeedSplit(v.c)
            if type(v) is Agg and not v.f: v = self.discr(st, v)
            if sort_of(v) == 'b': v = ite(v, 1, 0)
            return wrap(v, t['bits'], t['signed']) if t['k'] == 'int' else v
        if kind == 'IntToFloat': return i2f(v)
        if kind == 'FloatToInt':
            b, s = t['bits'], t['signed']
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
            return f2i(v, lo, hi)
        if kind == 'FloatToFloat':
            if t.get('n') == 'F64': return v
            return self.f32(v)
        if kind.startswith('PointerCoercion(Unsize') or kind.startswith('PtrToPtr') or kind in ('BoxDerefTransmute', 'Subtype', 'PointerExposeAddress', 'PointerExposeProvenance') or kind.startswith('PointerCoercion(MutToConst'):
            return v
        if kind.startswith('PointerCoercion(ClosureFnPointer') or kind.startswith('PointerCoercion(ReifyFnPointer'): return v
        if kind == 'Transmute':
            src = self.opty(inst, o)
            if is_scalar(v) and src is not None and t['k'] == 'int' and src['k'] == 'int': return wrap(v, t['bits'], t['signed'])
            if is_scalar(v) and src is not None and src['k'] == 'float' and t['k'] == 'int': return self.f_to_bits(v)
            if is_scalar(v) and src is not None and src['k'] == 'int' and t['k'] == 'float': return self.bits_to_f(v)
            if type(v) is Vec and t['k'] == 'array' and t.get('len') == len(v.f): return v
            if src is not None and src['k'] == 'float' and t['k'] == 'array' and t['len'] == 8: return self.f_to_bytes(v)
            if is_scalar(v) and src is not None and src['k'] == 'int' and t['k'] == 'array': return Vec(uf('byte%d' % i, 'i', (v,), 0, 255) for i in range(t['len']))
            return v
        raise Unsupported('cast ' + kind)

    def f_to_bits(self, v):
        if type(v) is float: return struct.unpack('>q', struct.pack('>d', v))[0]
        return uf('f64_bits', 'i', (v,))

    def f_to_bytes(self, v):
        return Opq('f64_bytes', (v,))

    def bits_to_f(self, v):
        if type(v) is int: return struct.unpack('>d', struct.pack('>Q', v & (2 ** 64 - 1)))[0]
        if type(v) is T and v.op == 'uf' and v.a[0] == 'f64_bits': return v.a[1]
        return uf('f64_from_bits', 'f', (v,))

    def f32(self, v):
        if type(v) is float: return struct.unpack('>f', struct.pack('>f', v))[0]
        return uf('f32', 'f', (v,), v.lo, v.hi)

    def discr(self, st, v):
        v = self.resolve(st, v)
        if type(v) is Choice: return merge(v.c, self.discr(st, v.a), self.discr(st, v.b))
        if type(v) is Agg:
            if v.ty is not None:
                t = self.p.types[v.ty]
                if t['k'] == 'adt' and t['kind'] == 'enum':
                    d = t['variants'][v.v]['discr']
                    if d >= 1 << 63: d -= 1 << 128
                    elif d == 255 and t['name'] == 'std::cmp::Ordering': d = -1
                    return d
            return v.v
        if is_scalar(v): return v
        raise Unsupported('discriminant of %r' % (v,))

    def rvalue(self, st, fr, inst, rv, dty):
        k = rv[0]
        if k == 'use': return self.operand(st, fr, rv[1])
        if k == 'ref' or k == 'addr':
            r = self.place(st, fr, rv[1])
            # reborrow of a str / opaque pointee
            if rv[1][1] and rv[1][1][-1][0] == '*' and r.key[0] == 't':
                v = self.load(st, r)
                if type(v) in (Str, Opq): return v
            return r
        if k == 'bin':
            x = self.operand(st, fr, rv[2]); y = self.operand(st, fr, rv[3])
            if rv[1] == 'Cmp': return self.cmpval(st, x, y, dty)
            if rv[1] == 'Offset':
                return self.ptr_offset(st, x, y)
            if rv[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and type(x) is Agg and type(y) is Agg and not x.f and not y.f:
                x, y = self.discr(st, x), self.discr(st, y)
            return self.binop(st, rv[1], x, y, self.opty(inst, rv[2]) if rv[1] not in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else None)
        if k == 'cbin':
            x = self.operand(st, fr, rv[2]); y = self.operand(st, fr, rv[3])
            if type(x) is Choice: raise NeedSplit(x.c)
            if type(y) is Choice: raise NeedSplit(y.c)
            return self.cbinop(st, rv[1], x, y, self.opty(inst, rv[2]))
        if k == 'un':
            x = self.operand(st, fr, rv[2])
            if rv[1] == 'PtrMetadata':
                return self.seqlen(st, x) if type(x) is Ref else self.len_of(st, x)
            if type(x) is Choice: raise NeedSplit(x.c)
            if rv[1] == 'Not':
                if sort_of(x) == 'b': return b_not(x)
                t = self.opty(inst, rv[2])
                return wrap(isub(-1, x), t['bits'], t['signed'])
            if rv[1] == 'Neg':
                return fneg(x) if sort_of(x) == 'f' else isub(0, x)
            raise Unsupported('un ' + rv[1])
        if k == 'cast':
            return self.cast(st, inst, rv[1], rv[2], self.operand(st, fr, rv[2]), rv[3])
        if k == 'discr':
            return self.discr(st, self.load(st, self.place(st, fr, rv[1])))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in rv[4]]
            kind = rv[1]
            if kind == 'array': return Vec(ops)
            if kind == 'tuple': return Agg(None, 0, tuple(ops))
            if kind == 'adt':
                t = self.p.types[rv[2]]
                return Agg(rv[2], rv[3], tuple(ops))
            if kind == 'closure': return Agg(rv[2], 0, tuple(ops))
            if kind == 'rawptr':
                r, n = ops
                if type(r) is Ref and is_scalar(n): return Ref(r.key, r.path, (r.win[0] if r.win else 0, n))
                return r
            raise Unsupported('aggregate ' + kind)
        if k == 'len': return self.seqlen(st, self.place(st, fr, rv[1]))
        if k == 'rep':
            v = self.operand(st, fr, rv[1])
            return Vec([v] * rv[2])
        raise Unsupported('rvalue ' + k)

    def ptr_offset(self, st, x, y):
        raise Unsupported('pointer arithmetic')

    def cmpval(self, st, x, y, dty):
        if type(x) is Agg and type(y) is Agg: x, y = self.discr(st, x), self.discr(st, y)
        r = self.ordering(x, y)
        return r

    # ------------------------------------------------------------ control
    def site(self, inst, bi):
        b = inst['blocks'][bi]
        return '%s bb%d (%s)' % (inst['name'], bi, b.get('sp', ''))

    def panic(self, st, inst, bi, kind):
        self.panics.append((inst['sdef'], inst['blocks'][bi].get('sp', ''), kind, st.ctx, tuple(self.stack)))
        raise Diverge()

    def call_inst(self, st, ix, args):
        """inline a body; returns the (joined) return value, st updated in place"""
        inst = self.p.insts[ix]
        if 'blocks' not in inst: raise Unsupported('no body: ' + inst['name'])
        self.visited.add(ix)
        if len(self.stack) > self.maxdepth: raise Unsupported('call depth: ' + inst['name'])
        self.fid += 1
        fr = self.fid
        if len(args) != inst['argc']:
            sp = inst.get('spread')
            if sp is not None and len(args) > inst['argc']:
                k = inst['argc'] - 1
                args = args[:k] + [Agg(None, 0, tuple(args[k:]))]
            else: raise Unsupported('arity %s: %d vs %d' % (inst['name'], len(args), inst['argc']))
        for i, a in enumerate(args): st.mem[(fr, i + 1)] = a
        self.stack.append(inst['sdef'])
        try:
            n = len(inst['blocks'])
            out = self.region(st, fr, inst, 0, 0, n)
            if out is None: raise Diverge()
            ret = out.mem.get((fr, 0), UNIT)
            st.mem = out.mem; st.ctx = out.ctx
        finally:
            self.stack.pop()
        for i in range(len(inst['locals'])): st.mem.pop((fr, i), None)
        return ret

    def region(self, st, fr, inst, bi, si, stop):
        """run from block bi, statement si until block `stop` (or the virtual exit); returns state or None"""
        blocks = inst['blocks']
        EXIT = len(blocks)
        stuck = None
        while True:
            if bi == stop: return st
            self.steps += 1
            if self.steps > self.budget: raise Unsupported('analysis budget exceeded in ' + inst['name'])
            if not self.steps & 255 and time.time() > LIMIT[0]: raise Unsupported('analysis time exceeded in ' + inst['name'])
            b = blocks[bi]
            try:
                ss = b['s']
                while si < len(ss):
                    s = ss[si]
                    self.stmt(st, fr, inst, s)
                    si += 1
                t = b['t']
                k = t[0]
                if k == 'goto': bi, si = t[1], 0; continue
                if k == 'ret':
                    if stop != EXIT: raise Unsupported('return crossed join point in ' + inst['name'])
                    return st
                if k == 'drop': bi, si = t[2], 0; continue
                if k == 'switch':
                    nx = self.switch(st, fr, inst, bi, t, stop)
                    if type(nx) is int: bi, si = nx, 0; continue
                    if nx is None: return None
                    st, bi = nx
                    si = 0
                    continue
                if k == 'assert':
                    c = self.operand(st, fr, t[1])
                    if type(c) is Choice: raise NeedSplit(c.c)
                    if not t[2]: c = b_not(c)
                    self.asserts += 1
                    d = st.ctx.decide(c)
                    if d is not True:
                        # failing side
                        if d is None:
                            try: bad = st.ctx.assume(c, False)
                            except Infeasible: bad = None
                        else: bad = st.ctx
                        if bad is not None:
                            self.panics.append((inst['sdef'], b.get('sp', ''), 'assert:' + t[3][0], bad, tuple(self.stack)))
                        if d is False: return None
                        try: st.ctx = st.ctx.assume(c, True)
                        except Infeasible: return None
                    bi, si = t[4], 0
                    continue
                if k == 'call':
                    self.do_call(st, fr, inst, bi, t)
                    if t[4] is None: return None
                    bi, si = t[4], 0
                    continue
                if k == 'unreachable': return None
                if k in ('resume', 'abort'): return None
                raise Unsupported('terminator ' + k)
            except NeedSplit as e:
                # a split that is already decided cannot help: the value does not simplify under it
                if st.ctx.decide(e.cond) is not None:
                    if stuck == (bi, si, e.cond): raise Unsupported('case split without effect in ' + inst['name'] + ' on ' + show(e.cond, 3))
                    stuck = (bi, si, e.cond)
                    st.ctx = st.ctx.assume(e.cond, st.ctx.decide(e.cond))
                    continue
                j = None if inst['sdef'] in self.nojoin else self.p.ipdom(inst).get(bi)
                if j is None: j = EXIT
                r = self.split(st, fr, inst, e.cond, (bi, si), (bi, si), j)
                if r is None: return None
                st, bi, si = r, j, 0
                if bi == EXIT:
                    return st
            except Diverge:
                return None

    def split(self, st, fr, inst, cond, p1, p2, j):
        """analyse both outcomes of cond until block j and join"""
        d = st.ctx.decide(cond)
        outs = []
        res = []
        for val, (bi, si) in ((True, p1), (False, p2)):
            if d is not None and d != val: continue
            try: c = st.ctx.assume(cond, val)
            except Infeasible: continue
            s2 = State(dict(st.mem), c)
            try: r = self.region(s2, fr, inst, bi, si, j)
            except RecursionError: raise Unsupported('recursion depth')
            if r is not None: res.append((val, r))
        if not res: return None
        if len(res) == 1: return res[0][1]
        return self.join(cond, st, res[0][1], res[1][1])

    def join(self, cond, base, s1, s2):
        mem = {}
        m1, m2 = s1.mem, s2.mem
        for k, v in m1.items():
            if k in m2:
                w = m2[k]
                mem[k] = v if v is w else merge(cond, v, w)
            else: mem[k] = v
        for k, w in m2.items():
            if k not in m1: mem[k] = w
        return State(mem, base.ctx)

    def switch(self, st, fr, inst, bi, t, stop):
        v = self.operand(st, fr, t[1])
        if type(v) is Choice: raise NeedSplit(v.c)
        if type(v) is bool or type(v) is int:
            x = int(v)
            ty = self.opty(inst, t[1]) if t[1][0] != 'rc' else None
            if x < 0 and ty is not None and ty['k'] == 'int': x += 1 << ty['bits']
            for val, tgt in t[2]:
                if int(val) == x: return tgt
            return t[3]
        if type(v) is not T: raise Unsupported('switch on %r' % (v,))
        # decide the cases in order
        cases = []
        ty = self.opty(inst, t[1])
        for val, tgt in t[2]:
            k = int(val)
            if v.sort == 'b': c = v if k == 1 else b_not(v)
            else:
                if ty is not None and ty['k'] == 'int' and ty['signed'] and k >> (ty['bits'] - 1): k -= 1 << ty['bits']
                c = eq(v, k)
            cases.append((c, tgt))
        live = []
        for c, tgt in cases:
            d = st.ctx.decide(c)
            if d is True:
                live.append((True, tgt)); break
            if d is False: continue
            live.append((c, tgt))
        else:
            live.append((True, t[3]))
        # drop an `otherwise` that leads straight to unreachable
        if len(live) > 1 and live[-1][0] is True and inst['blocks'][live[-1][1]]['t'][0] == 'unreachable' and not inst['blocks'][live[-1][1]]['s']:
            live.pop()
            live[-1] = (True, live[-1][1])
        if len(live) == 1: return live[0][1]
        j = None if inst['sdef'] in self.nojoin else self.p.ipdom(inst).get(bi)
        if j is None: j = len(inst['blocks'])
        if self.unroll is None: r = self.multi(st, fr, inst, live, j)
        else:
            k = (fr, bi); n = self.nest.get(k, 0)
            if n >= self.unroll:
                self.cuts.append((inst['sdef'], inst['blocks'][bi].get('sp', ''), st.ctx))
                return None
            self.nest[k] = n + 1
            try: r = self.multi(st, fr, inst, live, j)
            finally: self.nest[k] = n
        if r is None: return None
        return (r, j)

    def multi(self, st, fr, inst, live, j):
        """gated join of a multi-way branch"""
        c, tgt = live[0]
        if c is True or len(live) == 1:
            return self.region(st, fr, inst, tgt, 0, j)
        d = st.ctx.decide(c)
        r1 = r2 = None
        if d is not False:
            try:
                ctx1 = st.ctx.assume(c, True)
                r1 = self.region(State(dict(st.mem), ctx1), fr, inst, tgt, 0, j)
            except Infeasible: pass
        if d is not True:
            try:
                ctx2 = st.ctx.assume(c, False)
                r2 = self.multi(State(dict(st.mem), ctx2), fr, inst, live[1:], j)
            except Infeasible: pass
        if r1 is None: return r2
        if r2 is None: return r1
        return self.join(c, st, r1, r2)

    def stmt(self, st, fr, inst, s):
        k = s[0]
        if k == '=':
            pl = s[1]
            v = self.rvalue(st, fr, inst, s[2], None)
            if not pl[1]: st.mem[(fr, pl[0])] = v
            else: self.store(st, self.place(st, fr, pl), v)
        elif k == 'sd':
            r = self.place(st, fr, s[1])
            v = self.load(st, r)
            self.store(st, r, Agg(v.ty, s[2], v.f))
        elif k == 'assume': pass
        else: raise Unsupported('statement ' + k)

    def do_call(self, st, fr, inst, bi, t):
        ce, args, dest, tgt = t[1], t[2], t[3], t[4]
        av = [self.operand(st, fr, a) for a in args]
        snap = None
        self.cur = (inst, bi)
        if 'ptr' in ce:
            f = self.operand(st, fr, ce['ptr'])
            if type(f) is not FnV: raise Unsupported('call through %r' % (f,))
            callee = {'inst': f.inst, 'def': self.p.insts[f.inst]['def'], 'args': [], 'ik': 'item'}
        else: callee = ce
        saved = None if self.readonly(callee) else dict(st.mem)
        ctx0 = st.ctx
        depth = len(self.stack)
        try:
            r = self.call(st, callee, av, inst, bi)
        except NeedSplit:
            if saved is not None: st.mem = saved
            st.ctx = ctx0
            del self.stack[depth:]
            raise
        if tgt is None: return
        if not dest[1]: st.mem[(fr, dest[0])] = r
        else: self.store(st, self.place(st, fr, dest), r)

    def readonly(self, ce):
        """a call that cannot leave a partial effect behind when it asks for a case split (bodies split inside)"""
        k = id(ce)
        r = self._ro.get(k)
        if r is None:
            import models
            ix = ce.get('inst')
            dn = strip_generics(ce['def']) if 'def' in ce else '?'
            target = self.p.insts[ix] if ix is not None else None
            sd = target['sdef'] if target is not None else dn
            hooked = sd in self.hooks or dn in self.hooks
            r = not hooked and (models.lookup(sd, dn) is None or sd.rsplit('::', 1)[-1] in READONLY)
            self._ro[k] = (ce, r)
            return r
        return r[1]

    def call(self, st, ce, args, inst=None, bi=None):
        ix = ce.get('inst')
        dn = strip_generics(ce['def']) if 'def' in ce else '?'
        target = self.p.insts[ix] if ix is not None else None
        sd = target['sdef'] if target is not None else dn
        h = self.hooks.get(sd) or self.hooks.get(dn)
        if h is not None:
            r = h(self, st, args, ce)
            if r is not NotImplemented: return r
        import models
        m = models.lookup(sd, dn)
        if m is not None:
            r = m(self, st, args, ce, target)
            if r is not NotImplemented:
                self.modelled[sd] = self.modelled.get(sd, 0) + 1
                return r
        if target is not None and 'blocks' in target:
            return self.call_inst(st, ix, args)
        raise Unsupported('call to %s [%s]' % (sd, dn))

    # call a function value / closure with untupled args
    def apply(self, st, f, args):
        f = self.resolve(st, f)
        by_ref = None
        while type(f) is Ref:
            by_ref = f
            f = self.load(st, f)
        if type(f) is Choice: raise NeedSplit(f.c)
        if type(f) is FnV:
            i = self.p.insts[f.inst]
            return self.call(st, {'inst': f.inst, 'def': i['def'], 'args': i['args'], 'ik': 'item'}, list(args))
        if type(f) is Agg and f.ty is not None and self.p.types[f.ty]['k'] == 'closure':
            t = self.p.types[f.ty]
            inst = self.p.insts[t['inst']]
            selfty = self.p.types[inst['locals'][1]]
            if selfty['k'] in ('ref', 'ptr'):
                s = by_ref if by_ref is not None else self.new(st, f, 'c')
            else: s = f
            h = self.hooks.get(inst['sdef'])
            if h is not None: return h(self, st, [s] + list(args), None)
            if inst['argc'] == 1 + len(args):
                return self.call_inst(st, t['inst'], [s] + list(args))
            return self.call_inst(st, t['inst'], [s, Agg(None, 0, tuple(args))])
        if type(f) is Opq:
            h = self.hooks.get(('call', f.name))
            if h: return h(self, st, f, args)
        raise Unsupported('apply %r' % (f,))

    # convenience for checks
    def run_root(self, name, args, st=None):
        st = st or State()
        ix = self.p.roots['probe::' + name] if 'probe::' + name in self.p.roots else self.p.roots[name]
        try: r = self.call_inst(st, ix, args)
        except Diverge: return None, st
        return r, st
