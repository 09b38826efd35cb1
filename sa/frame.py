"""Check framework: obligations, verdicts, evidence."""
import hashlib, json, math, os, resource, sys, time, traceback
from terms import *
import terms as TT
from ctx import Ctx, Infeasible, simplify
from interp import *
import models
from compare import *

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(V, '.work')
CR = 'material_color_utilities_rs::'

# operator sugar for writing the expected value graphs
def _n(x): return float(x) if type(x) is int else x
def _bin(ff, fi, swap=False):
    def g(a, b):
        if swap: a, b = b, a
        if sort_of(a) == 'f' or sort_of(b) == 'f': return ff(_n(a) if sort_of(a) != 'f' else a, _n(b) if sort_of(b) != 'f' else b)
        return fi(a, b)
    return g
T.__add__ = _bin(fadd, iadd); T.__radd__ = _bin(fadd, iadd, True)
T.__sub__ = _bin(fsub, isub); T.__rsub__ = _bin(fsub, isub, True)
T.__mul__ = _bin(fmul, imul); T.__rmul__ = _bin(fmul, imul, True)
T.__truediv__ = _bin(fdiv, None); T.__rtruediv__ = _bin(fdiv, None, True)
T.__mod__ = _bin(frem_, irem); T.__rmod__ = _bin(frem_, irem, True)
T.__neg__ = lambda a: fneg(a) if a.sort == 'f' else isub(0, a)


class Check:
    def __init__(self, prog, pid, tier='quick', seed=1):
        self.p = prog; self.pid = pid; self.tier = tier; self.seed = seed
        self.ob = []            # (name, verdict, detail)
        self.viol = []
        self.notes = []
        self.visited = set()
        self.asserts = 0
        self.rules = []
        self.assumptions = []
        self.t0 = time.time()
        self.sites = 0
        self.known = []
        self.child = False
        self.panics_only = False
        self.jobs = []
        self.hints, self.harvest = (), None
        self.ncpu = min(8, os.cpu_count() or 1)
        # whatever the code looks like, the check answers in time: what is not decided by then is reported as undecided
        self.limit = 420 if tier == 'quick' else 1500
        LIMIT[0] = self.t0 + self.limit

    # --------------------------------------------------------------
    def loc(self, root):
        """source location of what a probe root exercises"""
        ix = self.p.roots.get('probe::' + root)
        if ix is None: return root
        inst = self.p.insts[ix]
        for b in inst['blocks']:
            t = b['t']
            if t[0] == 'call' and t[1].get('inst') is not None:
                c = self.p.insts[t[1]['inst']]
                if c['def'].startswith(CR) or CR in c['def']:
                    return '%s (%s)' % (c['def'].replace(CR, ''), c.get('span', '').replace('/repo/', ''))
        return root

    def rule(self, s):
        if self.panics_only: return
        if s not in self.rules: self.rules.append(s)

    # -------------------------------------------------------------- independent obligations in parallel
    def par(self, f, *a, **k):
        """analyse f's obligations in a forked process (each starts from the same state, so the result does not depend on scheduling)"""
        if self.child or self.jobs is None: return f(*a, **k)
        while len([1 for j in self.jobs if j[0]]) >= self.ncpu: self._reap()
        import gc, pickle
        gc.freeze()
        path = os.path.join(WORK, 'par-%d-%d' % (os.getpid(), len(self.jobs)))
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                self.child = True
                resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
                LIMIT[0] = min(LIMIT[0], time.time() + self.limit / 2)
                self.ob = []; self.viol = []; self.notes = []; self.visited = set(); self.asserts = 0; self.rules = []; self.assumptions = []
                t0 = time.time()
                try:
                    f(*a, **k)
                    if os.environ.get('SA_TIME'): print('%6.1fs %s' % (time.time() - t0, [o[:2] for o in self.ob][:2]))
                except BaseException as e:
                    if os.environ.get('SA_DEBUG'): traceback.print_exc()
                    self.undecided('obligation group', 'analyser error: %r' % (e,))
                with open(path + '.t', 'wb') as h: pickle.dump((self.ob, self.viol, self.notes, self.visited, self.asserts, self.rules, self.assumptions), h)
                os.rename(path + '.t', path)
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(0)
        # results are kept in the order of the obligations
        self.jobs.append([pid, path, len(self.ob), len(self.viol)])

    def _reap(self):
        while True:
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid: break
            if time.time() > self.t0 + self.limit + 60:
                for j in self.jobs:
                    if j[0]: os.kill(j[0], 9)
            time.sleep(0.01)
        for j in self.jobs:
            if j[0] == pid: j[0] = 0

    def join(self):
        import pickle
        if not self.jobs: return
        while any(j[0] for j in self.jobs): self._reap()
        ob, viol = [], []
        po = pv = 0
        for _, path, no, nv in self.jobs:
            ob += self.ob[po:no]; viol += self.viol[pv:nv]; po, pv = no, nv
            if not os.path.exists(path):
                ob.append(('obligation group', 'undecided', 'analysis process ended early')); continue
            with open(path, 'rb') as h: r = pickle.load(h)
            os.remove(path)
            ob += r[0]; viol += r[1]; self.notes += r[2]; self.visited |= r[3]; self.asserts += r[4]
            for x in r[5]: self.rule(x)
            for x in r[6]:
                if x not in self.assumptions: self.assumptions.append(x)
        self.ob = ob + self.ob[po:]; self.viol = viol + self.viol[pv:]
        self.jobs = []
        self.hints, self.harvest = (), None

    def proved(self, name, detail=''):
        if self.panics_only: return
        self.ob.append((name, 'proved', detail))
    def agree(self, name, detail=''):
        if self.panics_only: return
        self.ob.append((name, 'agree', detail))

    def undecided(self, name, why):
        self.ob.append((name, 'undecided', why))

    def violation(self, name, where, msg, witness=None):
        if self.panics_only and not msg.startswith(('reachable panic', 'never returns normally')): return
        self.ob.append((name, 'violated', msg))
        self.viol.append({'obligation': name, 'where': where, 'message': msg, 'witness': jsonable(witness)})

    def require(self, name, cond, where, msg):
        if cond: self.proved(name)
        else: self.violation(name, where, msg)
        return cond

    # --------------------------------------------------------------
    def interp(self, hooks=None, **kw):
        I = Interp(self.p, hooks=hooks, **kw)
        return I

    def run(self, root, args, hooks=None, st=None, assume=(), I=None, **kw):
        """analyse a probe root; returns (value, state, interp)"""
        I = I or self.interp(hooks, **kw)
        st = st or State()
        for c in assume:
            st.ctx = st.ctx.assume(c, True)
        if callable(args): args = args(I, st)
        v, st = I.run_root(root, args, st)
        self.visited |= I.visited
        self.asserts += I.asserts
        return v, st, I

    def call(self, root, args, **kw):
        v, st, I = self.run(root, args, **kw)
        return v

    def guard(self, name, f, *a, **k):
        """run an obligation; analyser limits become 'undecided'"""
        try: return f(*a, **k)
        except Unsupported as e: self.undecided(name, 'unsupported: %s' % str(e)[:200])
        except RecursionError: self.undecided(name, 'recursion')
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, NotImplementedError, AssertionError, NeedSplit, ZeroDivisionError, OverflowError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(name, 'analyser error: %r at %s:%d' % (e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get('SA_DEBUG'): traceback.print_exc()

    # --------------------------------------------------------------
    def expect(self, name, root, args, spec, hooks=None, assume=(), st=None, domain='', panics=True, I=None, secs=None, n=None, rtol=1e-9, n_nodes=1500, view=None, **kw):
        """the value graph of probe root `root` equals `spec` on the whole domain"""
        def go():
            v, s, J = self.run(root, args, hooks=hooks, assume=assume, st=st, I=I, **kw)
            ctx = Ctx()
            for c in assume: ctx = ctx.assume(c, True)
            if panics: self.check_panics(name, root, J)
            if v is None:
                self.violation(name, self.loc(root), 'never returns normally on the domain')
                return
            if view is not None: v = view(J, s, v)
            self.same(name, self.loc(root), v, spec, ctx, J, s, secs=secs, n=n, rtol=rtol, n_nodes=n_nodes)
        self.guard(name, go)

    def check_panics(self, name, root, J, limit=40):
        n0 = len(self.viol)
        self._check_panics(name, root, J, limit)
        if self.panics_only and len(self.viol) == n0:
            self.ob.append(('%s: no panic' % name, 'agree' if J.panics else 'proved', '%d panic sites not refuted by the path condition; no input reaching them found' % len({x[:3] for x in J.panics}) if J.panics else 'every panic site on the way is unreachable'))

    def _check_panics(self, name, root, J, limit):
        seen = set()
        k = 0
        for (sdef, sp, kind, ctx, stack) in J.panics:
            key = (sdef, sp, kind)
            if key in seen: continue
            k += 1
            if k > limit: break
            w = feasible_witness(ctx, self.seed, n=120, secs=4.0)
            if w is not None:
                seen.add(key)
                self.violation('%s: no panic' % name, '%s at %s' % (sdef.replace(CR, ''), sp.replace('/repo/', '')),
                               'reachable panic (%s) from %s' % (kind, self.loc(root)), w)

    def same(self, name, where, v, spec, ctx, J=None, st=None, secs=None, n=None, rtol=1e-9, n_nodes=1500):
        if self.panics_only: return True
        secs = secs or (20.0 if self.tier == 'quick' else 90.0)
        n = n or (300 if self.tier == 'quick' else 2000)
        bad = False
        worst = 'proved'
        cnt = 0
        total = 0
        open_ = 0
        for path, a, b, c in self.pairs(v, spec, ctx, J, st):
            total += 1
            if a is MISMATCH:
                # the path on which the shapes differ must be feasible
                w = feasible_witness(c, self.seed, n=400, secs=4.0) if c.hist else {}
                if w is None: open_ += 1; continue
                self.violation(name, where, '%s: %s' % (path, b), w); return False
            if a is b: continue
            r = decide_equal(a, b, c, self.seed, n, secs, rtol, n_nodes, self.hints, self.harvest)
            if r == 'proved': continue
            if r[0] == 'refuted':
                self.violation(name, where, '%s = %s, expected %s' % (path or 'result', fmtv(r[2]), fmtv(r[3])), r[1])
                bad = True
                break
            worst = 'agree'; cnt += r[1]
        if bad: return False
        if open_:
            # paths on which the shapes differ, none of them shown feasible
            if open_ > total // 2: self.undecided(name, '%d of %d paths differ in shape but no input reaching them was found' % (open_, total)); return True
            worst = 'agree'
        if worst == 'proved': self.proved(name, '%d scalar(s)' % total)
        else: self.agree(name, '%d scalar(s), agree on %d valuations' % (total, cnt))
        return True

    def inrange(self, name, where, v, lo, hi, ctx=None, lo_open=False, hi_open=False, st=None, J=None, n=None):
        """every scalar of v lies in [lo, hi]: interval enclosure with gate splitting; a claim of escape needs a witness"""
        if self.panics_only: return True
        ctx = ctx or Ctx()
        worst = 'proved'
        for path, x, c in leaves(v, ctx, J, st):
            if type(x) is not T:
                ok = x == x and (lo < x or not lo_open and x == lo) and (x < hi or not hi_open and x == hi)
                if not ok:
                    self.violation(name, where, '%s = %r outside %s..%s' % (path or 'result', x, lo, hi)); return False
                continue
            if bounded(x, c, lo, hi, lo_open, hi_open, Budget(400, 8.0)): continue
            w = escape(x, c, lo, hi, lo_open, hi_open, self.seed, n or (400 if self.tier == 'quick' else 3000))
            if w is not None:
                self.violation(name, where, '%s = %r outside %s..%s' % (path or 'result', w[1], lo, hi), w[0]); return False
            worst = 'agree'
        (self.proved if worst == 'proved' else self.agree)(name)
        return True

    def pairs(self, v, spec, ctx, J, st, path=''):
        """scalar pairs of a value tree against an expected tree"""
        if type(v) is Choice:
            d = ctx.decide(v.c)
            for val, arm in ((True, v.a), (False, v.b)):
                if d is not None and d != val: continue
                try: c = ctx.assume(v.c, val)
                except Infeasible: continue
                yield from self.pairs(arm, spec, c, J, st, path)
            return
        if isinstance(spec, Cond):
            d = ctx.decide(spec.c)
            for val, arm in ((True, spec.a), (False, spec.b)):
                if d is not None and d != val: continue
                try: c = ctx.assume(spec.c, val)
                except Infeasible: continue
                yield from self.pairs(v, arm, c, J, st, path)
            return
        if spec is ANY: return
        if callable(spec):
            r = spec(v, ctx, J, st)
            if r is not True: yield path, MISMATCH, str(r), ctx
            return
        if type(v) is Ref and st is not None:
            x = J.load(st, v)
            if v.win is not None and type(x) is Vec: x = Vec(x.f[v.win[0]:v.win[0] + v.win[1]])
            yield from self.pairs(x, spec, ctx, J, st, path); return
        if is_scalar(spec):
            if not is_scalar(v):
                yield path, MISMATCH, 'got %s, expected a scalar' % type(v).__name__, ctx; return
            if type(spec) is int and sort_of(v) == 'f': spec = float(spec)
            if sort_of(spec) != sort_of(v): yield path, MISMATCH, 'sort mismatch', ctx; return
            yield path, v, spec, ctx; return
        if isinstance(spec, dict):
            if type(v) is not Agg: raise Unsupported('struct expected at %s, got %r' % (path, type(v)))
            names = field_names(self.p, v)
            for k, s in spec.items():
                if k not in names: raise Unsupported('field %s not found' % k)
                yield from self.pairs(v.f[names.index(k)], s, ctx, J, st, path + '.' + k)
            return
        if isinstance(spec, (list, tuple)):
            f = v.f if type(v) in (Vec, Agg) else v if type(v) is list else None
            if f is None: raise Unsupported('sequence expected at %s, got %r' % (path, type(v)))
            if len(f) != len(spec):
                yield path, MISMATCH, 'length %d, expected %d' % (len(f), len(spec)), ctx; return
            for i, (x, s) in enumerate(zip(f, spec)):
                yield from self.pairs(x, s, ctx, J, st, '%s[%d]' % (path, i))
            return
        if isinstance(spec, str):
            if type(v) is Str and all(type(p) is str for p in v.p):
                if ''.join(v.p) != spec: yield path, MISMATCH, 'got %r, expected %r' % (''.join(v.p), spec), ctx
                else: yield path, True, True, ctx
                return
            raise Unsupported('string expected')
        if isinstance(spec, Variant):
            if type(v) is not Agg: raise Unsupported('enum expected')
            names = [x['name'] for x in self.p.types[v.ty]['variants']] if v.ty is not None else None
            got = names[v.v] if names else {0: 'None', 1: 'Some'}[v.v]
            if got != spec.name: yield path, MISMATCH, 'got %s, expected %s' % (got, spec.name), ctx; return
            yield path, True, True, ctx
            for i, s in enumerate(spec.f): yield from self.pairs(v.f[i], s, ctx, J, st, '%s.%s' % (path, got))
            return
        if spec is None: return
        raise Unsupported('spec %r' % (spec,))

    # --------------------------------------------------------------
    def finish(self, level='other', explanation=''):
        self.join()
        known = load_known(self.pid)
        new = []
        for v in self.viol:
            key = '%s|%s' % (v['obligation'], strip_line(v['where']))
            if any(k['key'] == key for k in known): print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, v['where'], v['message']))
            else: new.append((key, v))
        cnt = {}
        for _, s, _ in self.ob: cnt[s] = cnt.get(s, 0) + 1
        decided = cnt.get('proved', 0) + cnt.get('agree', 0)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'wall_s': round(time.time() - self.t0, 2),
            'coverage': {
                'explanation': explanation,
                'obligations': len(self.ob), 'discharged': decided, 'by_verdict': cnt,
                'functions_analysed': len(self.visited),
                'repo_functions_analysed': sorted({self.p.insts[i]['sdef'].replace(CR, '') for i in self.visited if CR in self.p.insts[i]['def']})[:400],
                'panic_sites_checked': self.asserts,
                'rules': self.rules,
                'undecided': [[a, c] for a, b, c in self.ob if b == 'undecided'],
                'obligation_list': [[a, b, c] for a, b, c in self.ob][:600],
            },
            'assumptions': self.assumptions,
            'violations': len(new),
            'violation_list': [v for _, v in new],
        }
        if os.path.exists(os.path.join(WORK, 'dropped.txt')):
            d = open(os.path.join(WORK, 'dropped.txt')).read().split('\n')
            ev['coverage']['probes_dropped'] = [x for x in d if x]
        if self.notes: ev['coverage']['notes'] = self.notes
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        for v, s in sorted(cnt.items()): print('%s %s: %d' % (self.pid, v, s))
        for a, b, c in self.ob:
            if b == 'undecided': print('UNDECIDED %s: %s' % (a, c))
        if not new: return 0
        rp = os.path.join(WORK, 'replay'); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, '%s.json' % self.pid)
        json.dump({'property': self.pid, 'violations': [dict(v, key=k) for k, v in new]}, open(path, 'w'), indent=1, default=str)
        for k, v in new:
            print('  %s\n    at %s\n    rule: %s' % (v['message'], v['where'], v['obligation']))
            if v['witness']: print('    witness: %s' % (json.dumps(v['witness'])[:600]))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1


def arms(v, ctx):
    if type(v) is Choice:
        for val, arm in ((True, v.a), (False, v.b)):
            try: c = ctx.assume(v.c, val)
            except Infeasible: continue
            yield from arms(arm, c)
    else: yield v, ctx


def leaves(v, ctx, J, st, path=''):
    if type(v) is Choice:
        for val, arm in ((True, v.a), (False, v.b)):
            try: c = ctx.assume(v.c, val)
            except Infeasible: continue
            yield from leaves(arm, c, J, st, path)
    elif type(v) is Ref: yield from leaves(J.load(st, v), ctx, J, st, path)
    elif type(v) in (Agg, Vec):
        for i, x in enumerate(v.f): yield from leaves(x, ctx, J, st, '%s.%d' % (path, i))
    elif is_scalar(v): yield path, v, ctx
    else: raise Unsupported('leaf %r' % (v,))


class Cond:
    """expected tree selected by a condition"""
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b


class Variant:
    def __init__(self, name, *f): self.name = name; self.f = f


ANY = object()
MISMATCH = object()


def strip_line(s):
    import re
    return re.sub(r'(\.rs):\d+', r'\1', s)


def field_names(p, v):
    if v.ty is None: return []
    t = p.types[v.ty]
    if t['k'] != 'adt': return []
    return [f['name'] if isinstance(f, dict) else f[0] for f in t['variants'][v.v]['fields']]


def fmtv(x):
    return repr(x) if type(x) is not int or x < 1 << 20 else '%d (0x%x)' % (x, x)


def jsonable(w):
    if w is None: return None
    if isinstance(w, dict): return {str(k): (v if isinstance(v, (int, bool, str)) else repr(v)) for k, v in w.items()}
    return str(w)


def load_known(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def struct(p, name, fields, variant=0):
    """build a struct value from named fields"""
    ty = p.adt(name)
    fs = p.types[ty]['variants'][variant]['fields']
    names = [f['name'] if isinstance(f, dict) else f[0] for f in fs]
    return Agg(ty, variant, tuple(fields[n] for n in names))


def enumv(p, name, variant):
    ty = p.adt(name)
    for i, v in enumerate(p.types[ty]['variants']):
        if v['name'] == variant: return Agg(ty, i, ())
    raise KeyError(variant)


def field(p, v, name):
    n = field_names(p, v)
    return v.f[n.index(name)]
