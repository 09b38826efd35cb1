#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- decide one property on /repo's current source.

exit 0: held (or the analyser could not decide some obligations: listed in the evidence)
exit 1: VIOLATION line
exit 3: the source could not be compiled / dumped
"""
import hashlib, os, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'sa'))
sys.setrecursionlimit(400000)


EXPL = ('Static analysis of the compiler\'s intermediate representation (MIR) of /repo: the functions behind the property are abstractly interpreted with every input unknown, '
        'giving a gated value graph of the result and the path condition of every panic site; each obligation compares such a graph, on the whole stated input domain, with the graph of the rule. '
        'proved = equal after normalisation and case splitting over gates; agree = not normalised but no disagreement under random interpretation of both graphs; '
        'undecided = the analyser could not build or compare the graph (never counted as held or violated). No code of /repo is executed.')


def tree_hash():
    h = hashlib.sha256()
    for top in ('/repo/src', '/repo/Cargo.toml', os.path.join(V, 'driver/src'), os.path.join(V, 'driver/Cargo.toml'), os.path.join(V, 'harness/src'), os.path.join(V, 'harness/Cargo.toml'), os.path.join(V, 'dump.sh')):
        fs = [top] if os.path.isfile(top) else [os.path.join(d, f) for d, _, ff in os.walk(top) for f in ff]
        for f in sorted(fs):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


def dump():
    w = os.path.join(V, '.work'); os.makedirs(w, exist_ok=True)
    import fcntl
    with open(os.path.join(w, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(w, 'mir-%s.json' % tree_hash())
        if not os.path.exists(out):
            for f in os.listdir(w):
                if f.startswith('mir-'): os.remove(os.path.join(w, f))
            tmp = os.path.join(w, 'tmp.json')
            r = subprocess.run(['bash', os.path.join(V, 'dump.sh'), tmp])
            if r.returncode != 0: sys.exit(3)
            os.rename(tmp, out)
    return out


def main(pid, tier, res):
    try:
        path = dump()
        from frame import Program, Check
        import props
        prog = Program(path)
        c = Check(prog, pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
        try: props.PROPS[pid](c)
        except SystemExit: raise
        except BaseException as e:
            # an analyser limit outside any single obligation: reported as undecided, never as a verdict
            import traceback
            traceback.print_exc()
            c.undecided('whole check', 'analyser error: %r' % (e,))
        res.append(c.finish(explanation=EXPL))
    except SystemExit as e: res.append(e.code)
    except BaseException:
        import traceback
        traceback.print_exc()
        res.append(4)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'      # same iteration orders, same random choices, on every run
        os.execv(sys.executable, [sys.executable] + sys.argv)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    res = []
    threading.stack_size(1 << 30)
    t = threading.Thread(target=main, args=(pid, tier, res))
    t.start(); t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 4)
