#!/usr/bin/env python3
"""Development tool (no check uses it): plants single random changes in a program's sources, in scratch copies, and reports
which survive.  mutate.py APP|mp N WORKERS OUT [file-regex] [seed]"""
import os, random, re, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
import threading, queue

what, N, W, OUT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
FRE = sys.argv[5] if len(sys.argv) > 5 else '.'
random.seed(int(sys.argv[6]) if len(sys.argv) > 6 else 1)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if what == 'mp':
    SRC, PROPS = 'apps/multiphysics/src', json.loads(os.environ['MUT_PROPS'])
    TOOL = 'suites.mp_suite()'
else:
    SRC, PROPS = 'apps/micromechanics/%s/src' % what, json.loads(os.environ.get('MUT_PROPS', '[["C54",40],["C50",15],["C51",10],["C52",25],["C53",15]]'))
    TOOL = 'suites.evp_suite(%r)' % what

OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' \+= ', ' -= '), (r' \+= ', ' = '), (r' -= ', ' += '),
       (r' <= ', ' < '), (r' < ', ' <= '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\(ii,jj', '(jj,ii'), (r'\(i,j\)', '(j,i)'), (r'\b0\.5\b', '0.25'), (r'\b1\.0\b', '1.1'), (r'\b2\.0\b', '2.1'), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\b3\b', '2'), (r'\b2\b', '1'),
       (r'-(?=[a-zA-Z(])', '+'), (r'\*', '/'), (r'\+(?=[a-zA-Z(])', '-'), ('DEL', ''), ('DEL', ''), (r'\bi\b', 'j'), (r'\bkk\b', 'll'), (r'\.update_host\(\)', '.update_device()'), ('CONT', ''), (r'\bexp\(', '('), (r'\bsqrt\(', '(')]


def lines_of(f):
    t = open(f, errors='replace').read().split('\n')
    ok, off, com = [], 0, False
    for k, l in enumerate(t):
        s = l.strip()
        if re.match(r'#\s*if\s+0', s): off = 1
        elif off and re.match(r'#\s*if', s): off += 1
        elif off and re.match(r'#\s*(endif|else)', s): off -= 1
        if '/*' in s: com = True
        if off == 0 and not com and s and not s.startswith(('//', '#', 'printf', 'fprintf', 'std::cout', 'using', 'Profiler', 'KOKKOS', 'real_t ', 'View', 'DV')) and 'printf' not in s and 'Kokkos::fence' not in s:
            ok.append(k)
        if '*/' in s: com = False
    return t, ok


def mutants():
    fs = []
    for d, _, names in os.walk('/repo/' + SRC):
        if '-Link' in d: continue
        for n in names:
            p = os.path.join(d, n)
            if n.endswith(('.cpp', '.h', '.hpp')) and re.search(FRE, p): fs.append(p)
    allm = []
    for f in sorted(fs):
        t, ok = lines_of(f)
        for k in ok:
            code = t[k].split('//')[0]
            for op, rep in OPS:
                if op == 'DEL':
                    if re.match(r'^\s*[\w.\[\]>\-]+(\([^;]*\))?\s*[-+*/]?=?[^;{}]*;\s*$', code) and not re.match(r'^\s*(return|int|double|real_t|bool|auto|const|size_t|char|std::|Matrix|FMatrix|DC|DF|C?Array|break|case)\b', code): allm.append((f, k, code, ''))
                elif op == 'CONT':
                    if re.match(r'^\s*(if|while) \(.*\)\s*\{?\s*$', code): allm.append((f, k, code, re.sub(r'(if|while) \((.*)\)(\s*\{?\s*)$', r'if (!(\2))\3', code)))
                else:
                    for m in re.finditer(op, code):
                        n = code[:m.start()] + rep + code[m.end():]
                        if n != code: allm.append((f, k, code, n))
    # one per line at most
    random.shuffle(allm)
    seen, out = set(), []
    for m in allm:
        if (m[0], m[1]) in seen: continue
        seen.add((m[0], m[1])); out.append(m)
        if len(out) == N: break
    print(len(allm), 'possible,', len(out), 'chosen', flush=True)
    return out


q = queue.Queue()
for m in mutants(): q.put(m)
lock = threading.Lock()
out = open(OUT, 'a')
TR = '/tmp/mutw/traces-' + what
os.makedirs(TR, exist_ok=True)


def build(repo, bd):
    e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=bd, VERIF_JOBS='1')
    return subprocess.run(['nice', 'python3', '-c', 'import suites; print(%s)' % TOOL], cwd=V + '/bin', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def worker(w):
    repo, bd = '/tmp/mutw/%s-%d/repo' % (what, w), '/tmp/mutw/%s-%d/build' % (what, w)
    os.makedirs(bd, exist_ok=True); os.makedirs(repo, exist_ok=True)
    subprocess.run('rsync -a --delete --exclude _build --exclude .git /repo/ %s/ || cp -a /repo/. %s/' % (repo, repo), shell=True, stderr=subprocess.DEVNULL)
    r = build(repo, bd)
    if r.returncode: print(r.stdout[-2000:]); return
    sim = r.stdout.strip().split('\n')[-1]
    while True:
        try: f, k, old, new = q.get_nowait()
        except queue.Empty: break
        g = f.replace('/repo/', repo + '/', 1)
        src = open(g, errors='replace').read()
        l = src.split('\n'); l[k] = new
        open(g, 'w').write('\n'.join(l))
        try: r = build(repo, bd)
        except Exception as e: r = None
        res = 'nobuild'
        if r is not None and r.returncode == 0:
            res = 'SURVIVED'
            for p, n in PROPS:
                for s in range(1, n + 1):
                    t = '%s/%s.%d' % (TR, p, s)
                    if not os.path.exists(t):
                        x = subprocess.run([sim, '--prop', p, '--gen', str(s)], stdout=subprocess.PIPE)
                        open(t + '.%d' % w, 'wb').write(x.stdout); os.rename(t + '.%d' % w, t)
                    try: x = subprocess.run(['nice', sim, '--prop', p, '--replay', t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
                    except subprocess.TimeoutExpired: x = 99
                    if x: res = '%s seed %d rc %d' % (p, s, x); break
                if res != 'SURVIVED': break
        open(g, 'w').write(src)
        with lock:
            out.write('%s | %s:%d | %s | %s\n' % (res, f[len('/repo/' + SRC) + 1:], k + 1, old.strip(), new.strip())); out.flush()


ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree('/tmp/mutw', ignore_errors=True) if os.environ.get('MUT_CLEAN') else None
