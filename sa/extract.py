"""Runs the ttx exporter over the library sources of /repo and loads the resolved program."""
import glob, hashlib, json, os, pickle, subprocess, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TTX_REPO', '/repo')
TTX = os.path.join(VERIF, 'build', 'ttx')
CLANG_INC = '/usr/lib/llvm-18/lib/clang/18/include'

class Broken(Exception):
    """analysis-broken: neither pass nor violation"""

def build_ttx(force=False):
    src = os.path.join(VERIF, 'tool', 'ttx.cpp')
    if not force and os.path.exists(TTX) and os.path.getmtime(TTX) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(TTX), exist_ok=True)
    tmp = TTX + '.%d' % os.getpid()
    cmd = ['clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18',
           '-Wl,-rpath,/usr/lib/llvm-18/lib']
    if shutil.which('clang++-18') is None:
        cmd[0] = 'clang++'
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build ttx: ' + r.stderr[-2000:])
    os.replace(tmp, TTX)

SKIP = ('Utils/CUDA',)
STUBBED_DIST = True

def sources():
    src = os.path.join(REPO, 'src')
    out = []
    for p in sorted(glob.glob(src + '/**/*.cpp', recursive=True)):
        rel = os.path.relpath(p, src)
        if any(s in rel for s in SKIP):
            continue
        out.append(p)
    return out + [os.path.join(VERIF, 'stubs', 'headers.cpp')]

def src_hash():
    h = hashlib.sha256()
    src = os.path.join(REPO, 'src')
    fs = []
    for d, _, names in os.walk(src):
        for n in names:
            if n.endswith(('.cpp', '.h', '.hpp', '.inc', '.inl', '.cuh', '.cu')):
                fs.append(os.path.join(d, n))
    for p in sorted(fs):
        h.update(os.path.relpath(p, src).encode())
        h.update(open(p, 'rb').read())
    h.update(open(os.path.join(VERIF, 'tool', 'ttx.cpp'), 'rb').read())
    for p in sorted(glob.glob(os.path.join(VERIF, 'stubs', '*'))):
        h.update(open(p, 'rb').read())
    h.update(open(__file__, 'rb').read())
    return h.hexdigest()[:24]

def export(workdir):
    build_ttx()
    srcs = sources()
    if len(srcs) < 40:
        raise Broken('only %d source files found under %s/src' % (len(srcs), REPO))
    core = [s for s in srcs if '/Distributed/' not in s]
    dist = [s for s in srcs if '/Distributed/' in s]
    core.sort(key=lambda p: -os.path.getsize(p))
    ngroups = 8
    groups = [[] for _ in range(ngroups)]
    # operation TUs are heavy: spread round robin
    heavy = [s for s in core if '/Operation/' in s or '/Function/' in s]
    light = [s for s in core if s not in heavy]
    for i, s in enumerate(heavy):
        groups[i % ngroups].append(s)
    for i, s in enumerate(light):
        groups[(i + 3) % ngroups].append(s)
    base = ['-std=c++17', '-DNDEBUG', '-fno-exceptions', '-w', '-I' + REPO + '/src', '-I' + REPO + '/third_party', '-I' + CLANG_INC]
    jobs = [(g, base) for g in groups if g]
    jobs.append((dist, base + ['-I' + os.path.join(VERIF, 'stubs'), '-DUSE_CUDA']))
    procs = []
    for i, (g, args) in enumerate(jobs):
        out = os.path.join(workdir, 'g%d.jsonl' % i)
        err = open(os.path.join(workdir, 'g%d.err' % i), 'wb')
        procs.append((subprocess.Popen([TTX, out, REPO + '/src'] + g + ['--'] + args, stdout=err, stderr=err), out, g, i))
    outs = []
    for p, out, g, i in procs:
        rc = p.wait()
        if rc:
            tail = open(os.path.join(workdir, 'g%d.err' % i)).read()[-3000:]
            raise Broken('ttx failed on %s: %s' % ([os.path.basename(x) for x in g], tail))
        outs.append(out)
    return outs, srcs

def load_raw():
    cache_dir = os.path.join(VERIF, 'build', 'cache')
    key = src_hash()
    cp = os.path.join(cache_dir, key + '.pkl')
    if os.path.exists(cp):
        try:
            return pickle.load(open(cp, 'rb'))
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix='ttx.')
    try:
        outs, srcs = export(tmp)
        funcs, decls, classes, enums, gvars, tus, errs = {}, {}, {}, {}, {}, [], []
        for o in outs:
            for line in open(o):
                r = json.loads(line)
                k = r['rec']
                if k == 'func':
                    u = r['u']
                    if r.get('int'):
                        u = r['u']  # internal linkage; USR contains the file name for statics
                    if u not in funcs:
                        funcs[u] = r
                elif k == 'fdecl':
                    decls.setdefault(r['u'], r)
                elif k == 'class':
                    classes.setdefault(r['n'], r)
                elif k == 'enum':
                    enums.setdefault(r['n'], r)
                elif k == 'var':
                    kk = (r['n'], r['gc'])
                    if kk not in gvars or ('init' in r and 'init' not in gvars[kk]):
                        gvars[kk] = r
                elif k == 'tu':
                    tus.append(r['file'])
                elif k == 'error':
                    errs.append(r['file'])
        if errs or len(tus) != len(srcs):
            raise Broken('translation units with errors: %s; parsed %d of %d' % (errs, len(tus), len(srcs)))
        raw = dict(funcs=funcs, decls=decls, classes=classes, enums=enums, gvars=gvars, tus=tus)
        try:
            os.makedirs(cache_dir, exist_ok=True)
            t = cp + '.%d' % os.getpid()
            pickle.dump(raw, open(t, 'wb'), protocol=4)
            os.replace(t, cp)
            old = sorted(glob.glob(cache_dir + '/*.pkl'), key=os.path.getmtime)
            for f in old[:-4]:
                os.unlink(f)
        except OSError:
            pass
        return raw
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    import time
    t = time.time()
    r = load_raw()
    print({k: len(v) for k, v in r.items()}, time.time() - t)
