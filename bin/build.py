"""Builds the simulation workers from /repo's current working tree into /verif/.build (git-ignored).

A worker is rebuilt from scratch unless every file its objects were made from (as listed by the
compiler) still has the same content, so a check never judges a stale tree."""
import fcntl, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CXX = 'clang++'
BASE = ['-std=c++17', '-g', '-fno-omit-frame-pointer']


class BuildError(Exception):
    pass


def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def parse_d(path):
    with open(path) as f:
        t = f.read().replace('\\\n', ' ')
    return [w for w in t.split(':', 1)[1].split() if w]


def fresh(obj, cmd):
    try:
        with open(obj + '.json') as f:
            j = json.load(f)
        if j['cmd'] != cmd or not os.path.exists(obj):
            return False
        return all(os.path.exists(p) and sha(p) == h for p, h in j['deps'].items())
    except (OSError, ValueError, KeyError):
        return False


def compile_one(src, flags, obj, pre=None):
    """src -> obj; pre(srctext) -> text is an optional source transformation (the result is compiled in its place)."""
    cmd = [CXX] + flags
    key = ' '.join(cmd) + ' ' + src
    if fresh(obj, key):
        return
    real = src
    if pre:
        with open(src) as f:
            text = pre(f.read())
        real = obj + '.pre.cpp'
        with open(real, 'w') as f:
            f.write('#line 1 "%s"\n' % src + text)
        flags = flags + ['-I' + os.path.dirname(src)]
    full = [CXX] + flags + ['-MD', '-MF', obj + '.d', '-c', real, '-o', obj]
    r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(full), r.stdout[-6000:]))
    deps = {p: sha(p) for p in parse_d(obj + '.d') if not p.startswith('/usr/')}
    deps[src] = sha(src)
    with open(obj + '.json', 'w') as f:
        json.dump({'cmd': key, 'deps': deps}, f)


def build(name, units, link, exe='sim'):
    """units: list of (source, flags[, pre]); returns the path of the linked worker."""
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        objs, jobs = [], []
        with ThreadPoolExecutor(8) as ex:
            for i, u in enumerate(units):
                src, flags = u[0], u[1]
                pre = u[2] if len(u) > 2 else None
                obj = os.path.join(d, '%02d-%s.o' % (i, os.path.basename(src).rsplit('.', 1)[0]))
                objs.append(obj)
                jobs.append(ex.submit(compile_one, src, BASE + flags, obj, pre))
            for j in jobs:
                j.result()
        out = os.path.join(d, exe)
        stamp = hashlib.sha256(('|'.join([sha(o) for o in objs]) + ' '.join(link)).encode()).hexdigest()
        try:
            with open(out + '.stamp') as f:
                if f.read() == stamp and os.path.exists(out):
                    return out
        except OSError:
            pass
        r = subprocess.run([CXX] + objs + link + ['-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-6000:])
        with open(out + '.stamp', 'w') as f:
            f.write(stamp)
        return out
