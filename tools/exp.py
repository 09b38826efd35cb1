#!/usr/bin/env python3
"""Development aid: run checks on edited copies of /repo, several at a time, each in its own mount namespace.

tools/exp.py FILE.py [ID...]
FILE.py: bug(id, 'P12 P13', [(file, old, new), ...]) must be caught by one of the checks; ref(id, 'P12', [...]) keeps the behaviour,
so every named check must stay quiet ('*' = all checks).  Both must build and pass the tests.
"""
import json, os, queue, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOTS = int(os.environ.get('SLOTS', '3'))
L = []
ALL = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
def bug(id, props, edits): L.append((id, 'bug', ALL if props == '*' else props.split(), edits))
def ref(id, props, edits): L.append((id, 'ref', ALL if props == '*' else props.split(), edits))
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
q = queue.Queue()
for x in L:
    if not want or x[0] in want: q.put(x)
lock = threading.Lock()


def sh(c, cwd, t=1800):
    try: return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = ''; stderr = 'timeout'
        return R


def say(*a):
    with lock: print(*a, flush=True)


def worker(k):
    W = '/tmp/exp%d' % k
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    subprocess.check_call(['cp', '-a', '/repo', W + '/repo'])
    subprocess.check_call(['cp', '-a', V, W + '/verif'])
    while True:
        try: id, kind, props, edits = q.get_nowait()
        except queue.Empty: break
        sh('git checkout -- . && git clean -fdq src', W + '/repo')
        ok = True
        for f, old, new in edits:
            p = W + '/repo/' + f
            s = open(p).read() if os.path.exists(p) else ''
            if isinstance(old, tuple):   # everything from the first marker up to the second
                i = s.find(old[0]); j = s.find(old[1], i + 1)
                if i < 0 or j < 0 or s.count(old[0]) != 1: say(id, 'MARKERS', i, j, repr(old)); ok = False; break
                s = s[:i] + new + s[j:]
            elif old == '': s = s + new
            elif s.count(old) != 1: say(id, 'PATTERN', s.count(old), 'times in', f, repr(old[:70])); ok = False; break
            else: s = s.replace(old, new)
            open(p, 'w').write(s)
        if not ok: continue
        r = sh('cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 4', W + '/repo')
        n = len({l.split()[1] for l in r.stdout.split('\n') if l.startswith('test ') and l.rstrip().endswith('... ok')})
        bad = [l for l in r.stdout.split('\n') if l.startswith('test ') and l.rstrip().endswith('FAILED')]
        if n < 128 or bad: say(id, 'TESTS', n, bad[:3], '' if n else '\n'.join([l for l in r.stderr.split('\n') if 'error' in l or '-->' in l][:6])); continue
        res = []
        caught = False
        for p in props:
            r = sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && python3 check.py %s quick'" % (W, W, p), '/')
            o = r.stdout + r.stderr
            und = o.count('UNDECIDED')
            if r.returncode == 1:
                caught = True
                m = re.search(r'rule: (.*)', o)
                res.append('%s VIOLATION%s' % (p, ' [' + m.group(1)[:70] + ']' if m else ''))
                if kind == 'ref':
                    i = o.find('rule:'); res.append('\n' + o[max(0, i - 300):i + 500])
            elif r.returncode == 0: res.append('%s quiet%s' % (p, ' (%d undecided: %s)' % (und, '; '.join(re.findall(r'UNDECIDED (.*)', o)[:2])[:160]) if und else ''))
            else: res.append('%s exit=%d %s' % (p, r.returncode, o[-200:]))
        good = caught == (kind == 'bug')
        say('%s %-7s %s %s' % ('ok ' if good else '***', {('bug', True): 'caught', ('bug', False): 'MISSED', ('ref', True): 'ALARM', ('ref', False): 'quiet'}[(kind, caught)], id, '; '.join(res)))
    shutil.rmtree(W, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(min(SLOTS, q.qsize()))]
for t in ts: t.start()
for t in ts: t.join()
