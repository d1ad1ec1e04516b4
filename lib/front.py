"""Front end: build the AST exporter, run it over the current sources of /repo, load the result.

Everything is derived from the working tree on every run.  Results are cached
under build/ by a hash over the *contents* of every input (sources, headers,
exporter, flags), so a cache hit can only return what a fresh run would produce.
"""
import glob, hashlib, json, os, re, subprocess, sys, tempfile, concurrent.futures as cf, pickle, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(VERIF, 'build')
CLANGXX = '/usr/bin/clang++-18'
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (never reported as a violation)."""


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tools', 'astx.cpp')
    key = sha(src)[:16]
    out = os.path.join(BUILD, 'astx-' + key)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, 'astx.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = out + '.tmp%d' % os.getpid()
        cmd = [CLANGXX, '-std=c++17', '-fno-rtti', '-O1', '-I' + LLVM + '/include', src, '-o', tmp,
               '-L' + LLVM + '/lib', '-L/usr/lib/x86_64-linux-gnu', '-l:libclang-cpp.so.18', '-lLLVM-18', '-w']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('cannot build the exporter: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def flags(incdir):
    return ['-I' + incdir, '-I' + SRC, '-I/usr/include/eigen3', '-I/usr/include/hdf5/serial',
            '-I' + os.path.join(REPO, 'lib', 'SDDS'),
            '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
            '-I' + os.path.join(VERIF, 'tools', 'include'), '-fopenmp', '-DNDEBUG', '-std=c++11', '-m64', '-pthread', '-w',
            '-ferror-limit=0', '-resource-dir', LLVM + '/lib/clang/18']


def sources():
    s = sorted(glob.glob(os.path.join(SRC, '*.cpp')))
    h = sorted(p for p in glob.glob(os.path.join(SRC, '*')) if os.path.isfile(p) and not p.endswith('.cpp'))
    if len(s) < 10:
        raise AnalysisBroken('only %d source files under %s' % (len(s), SRC))
    return s, h


def config_h(incdir):
    """config.h as CMake generates it from config.h.in"""
    os.makedirs(incdir, exist_ok=True)
    p = os.path.join(SRC, 'config.h.in')
    t = open(p).read() if os.path.exists(p) else ''
    cm = os.path.join(REPO, 'CMakeLists.txt')
    vals = dict(re.findall(r'set\s*\(\s*(\w+)\s+"?([^\s")]+)"?\s*\)', open(cm).read())) if os.path.exists(cm) else {}
    t = re.sub(r'@(\w+)@', lambda m: vals.get(m.group(1), '0'), t)
    open(os.path.join(incdir, 'config.h'), 'w').write(t)


class Program:
    pass


def load():
    tool = build_tool()
    cpp, hdr = sources()
    cmk = [p for p in [os.path.join(REPO, 'CMakeLists.txt')] if os.path.exists(p)]
    key = sha(os.path.join(VERIF, 'tools', 'astx.cpp'), os.path.abspath(__file__), *(cpp + hdr + cmk))[:24]
    cache = os.path.join(BUILD, 'ast-' + key + '.pickle')
    if os.path.exists(cache):
        try:
            with open(cache, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    with tempfile.TemporaryDirectory(prefix='teufel_sa_') as td:
        config_h(td)

        def one(f):
            r = subprocess.run([tool, SRC + '/', f, '--'] + flags(td), capture_output=True, text=True)
            return f, r
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, cpp))
    P = Program()
    P.functions, P.records, P.globals, P.units = {}, {}, {}, []
    for f, r in res:
        lines = r.stdout.split('\n')
        if r.returncode or '{"kind":"done"}' not in lines[-3:]:
            raise AnalysisBroken('%s does not parse: %s' % (f, r.stderr[-1500:]))
        P.units.append(f)
        for l in lines:
            if not l:
                continue
            o = json.loads(l)
            k = o['kind']
            if k == 'function':
                key_ = o['u']
                if o['n'] == 'main':            # one main per program
                    key_ = o['u'] = 'main@' + os.path.basename(f)
                P.functions.setdefault(key_, o)
            elif k == 'record':
                P.records.setdefault(o['u'], o)
            elif k == 'global':
                P.globals.setdefault(o['u'], o)
    finish(P)
    for old in glob.glob(os.path.join(BUILD, 'ast-*.pickle')):
        try:
            os.unlink(old)
        except OSError:
            pass
    with open(cache + '.tmp%d' % os.getpid(), 'wb') as f:
        pickle.dump(P, f)
    os.rename(cache + '.tmp%d' % os.getpid(), cache)
    return P


def finish(P):
    P.by_type = {}
    for r in P.records.values():
        P.by_type[r['t']] = r
    # overriders: method usr -> set of function usrs that may run for a virtual call
    P.overriders = {}
    direct = {}
    for r in P.records.values():
        for m in r['methods']:
            for b in m['over']:
                direct.setdefault(b, set()).add(m['u'])
    def closure(u, seen):
        for d in direct.get(u, ()):
            if d not in seen:
                seen.add(d)
                closure(d, seen)
        return seen
    P.method = {}
    for r in P.records.values():
        for m in r['methods']:
            P.method[m['u']] = (r, m)
            if m['virt']:
                P.overriders[m['u']] = {m['u']} | closure(m['u'], set())
    P.bases = {}
    for r in P.records.values():
        P.bases[r['t']] = list(r['bases'])


def ancestors(P, t):
    out = []
    todo = [t]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.append(x)
        todo += P.bases.get(x, [])
    return out


def walk(n):
    """all nodes of a tree (dicts with 'k'), pre-order"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            for key in ('init', 'var', 'cvar', 'size', 'e', 'callee'):
                v = x.get(key)
                if isinstance(v, dict):
                    st.append(v)
            c = x.get('c')
            if c:
                st.extend(reversed(c))


def loc(n, fn=None):
    f = n.get('f') or (fn or {}).get('f') or ''
    return '%s:%s' % (os.path.relpath(f, REPO) if f.startswith('/') else f, n.get('l', '?'))
