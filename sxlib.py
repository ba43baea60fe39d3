"""Build and run machinery: stage /repo, compile to LLVM IR, pass, link with the runtime, run, replay."""
import os, subprocess, sys, hashlib, tempfile, shutil, time, json, re, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); ENG = V + '/engine'
REPO = os.environ.get('SX_REPO', '/repo')
Z3INC = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/include'
Z3LIB = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib'
CC = 'clang-18'; CXX = 'clang++-18'
IRFLAGS = ('-O0 -g1 -std=gnu11 -emit-llvm -c -w -mlong-double-64 -fno-builtin -ffp-contract=off '
           '-fsanitize=address -fno-sanitize-address-use-after-scope -Wno-error').split()

class BuildError(Exception): pass
def sh(cmd, env=None, cwd=None, ok=False):
    e = dict(os.environ);
    if env: e.update(env)
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, text=True, errors='replace')
    if p.returncode and not ok: raise BuildError('command failed: %s\n%s' % (cmd, p.stdout[-4000:]))
    return p.stdout

def fhash(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files: h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def engine():
    """pass plugin, runtime objects, models (independent of /repo); cached under build/"""
    src = sorted(glob.glob(ENG + '/*.cpp') + glob.glob(ENG + '/*.c') + glob.glob(ENG + '/*.h') + [ENG + '/safe.txt'])
    out = '%s/build/engine-%s' % (V, fhash(src, 'v1'))
    if os.path.exists(out + '/done'): return out
    os.makedirs(V + '/build', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='eng', dir=V + '/build')
    jobs = [
        [CXX, '-O1', '-fPIC', '-shared', '-w', '-fno-rtti', '-std=c++17', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', '-D__STDC_FORMAT_MACROS', ENG + '/sxpass.cpp', '-o', tmp + '/sxpass.so'],
        [CXX, '-std=c++17', '-O2', '-g1', '-w', '-isystem', Z3INC, '-c', ENG + '/rt.cpp', '-o', tmp + '/rt.o'],
        [CXX, '-std=c++17', '-O2', '-g1', '-w', '-c', ENG + '/alg.cpp', '-o', tmp + '/alg.o'],
        ['gcc', '-O1', '-w', '-c', ENG + '/native.c', '-o', tmp + '/native.o'],
        [CC] + [f for f in IRFLAGS if 'sanitize' not in f] + [ENG + '/models.c', '-o', tmp + '/models.bc'],
        [CC] + [f for f in IRFLAGS if 'sanitize' not in f] + [ENG + '/draws.c', '-o', tmp + '/draws.bc'],
        [CC] + [f for f in IRFLAGS if 'sanitize' not in f] + [ENG + '/opt.c', '-o', tmp + '/opt.bc'],
    ]
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    names = set()
    for o in ('rt.o',): names |= set(re.findall(r' T sxm_(\w+)', sh(['nm', tmp + '/' + o])))
    for b in ('models.bc', 'draws.bc', 'opt.bc'): names |= set(re.findall(r' T sxm_(\w+)', sh(['llvm-nm-18', tmp + '/' + b])))
    open(tmp + '/models.txt', 'w').write('\n'.join(sorted(names)) + '\n')
    shutil.copy(ENG + '/safe.txt', tmp + '/safe.txt')
    for b in ('models', 'draws', 'opt'): transform(tmp, tmp + '/%s.bc' % b, tmp + '/%s.o' % b, lib=False)
    open(tmp + '/done', 'w').close()
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def transform(eng, bc, obj, lib, internal=None):
    env = {'SX_MODELS': eng + '/models.txt', 'SX_SAFE': eng + '/safe.txt'}
    if lib: env['SX_COV'] = '1'
    if internal: env['SX_INTERNAL'] = internal
    o = sh(['opt-18', '-load-pass-plugin', eng + '/sxpass.so', '-passes=sx', bc, '-o', obj + '.bc'], env=env)
    if 'SX:' in o: sys.stderr.write(o)
    sh(['llc-18', '-O1', '-filetype=obj', '-relocation-model=pic', obj + '.bc', '-o', obj])
    os.unlink(obj + '.bc')

def lib_sources(src):
    r = []
    for f in sorted(glob.glob(src + '/apop_*.c') + glob.glob(src + '/model/*.c') + glob.glob(src + '/transform/*.c') + glob.glob(src + '/asprintf.c')):
        b = os.path.basename(f)
        if '.m4.' in b or b in ('apop_db_mysql.c', 'apop_db_sqlite.c', 'asprintf.c'): continue
        r.append(f)
    return r

def stage(work):
    src = work + '/src'
    sh(['bash', ENG + '/stage.sh', REPO, src]); shutil.copy(ENG + '/config.h', src + '/config.h')
    return src

def build_lib(work, eng):
    """the whole library, instrumented"""
    src = stage(work); bc = work + '/bc'; os.makedirs(bc, exist_ok=True)
    files = lib_sources(src); excl = []
    def one(f):
        sh([CC] + IRFLAGS + ['-I' + src, '-I' + src + '/model', f, '-o', bc + '/' + os.path.basename(f)[:-2] + '.bc'])
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, files))
    bcs = [bc + '/' + os.path.basename(f)[:-2] + '.bc' for f in files]
    names = set()
    for l in sh(['llvm-nm-18', '--defined-only'] + bcs).split('\n'):
        p = l.split()
        if len(p) == 3 and p[1] in 'TDBRVWC': names.add(p[2])
    open(work + '/internal.txt', 'w').write('\n'.join(sorted(names | {'sx_x'})) + '\n')
    def tr(b): transform(eng, b, b[:-3] + '.o', True, work + '/internal.txt')
    with ThreadPoolExecutor(8) as ex: list(ex.map(tr, bcs))
    return [b[:-3] + '.o' for b in bcs]

def build_harness(work, eng, objs, h, defs=()):
    name = os.path.basename(h)[:-2]; b = '%s/h_%s.bc' % (work, name)
    sh([CC] + IRFLAGS + ['-I' + ENG, '-I' + work + '/src', '-I' + V + '/harness', '-DSX_SYM'] + list(defs) + [h, '-o', b])
    transform(eng, b, b[:-3] + '.o', False, work + '/internal.txt')
    exe = '%s/x_%s' % (work, name)
    sh([CXX, '-fsanitize=address', '-no-pie' if 0 else '-pie', '-o', exe, b[:-3] + '.o'] + objs + [eng + '/models.o', eng + '/draws.o', eng + '/opt.o', eng + '/native.o', eng + '/rt.o', eng + '/alg.o', '-L' + Z3LIB, '-Wl,-rpath,' + Z3LIB, '-lz3', '-lgsl', '-lgslcblas', '-lsqlite3', '-lgmpxx', '-lgmp', '-lpthread', '-lm', '-ldl'])
    return exe

def build_replay_lib(work):
    """the same sources, compiled the way the project is (gcc -O2 -fopenmp), for replaying counterexamples;
    twice: plain and with ASAN"""
    src = work + '/src' if os.path.exists(work + '/src') else stage(work)
    def one(a):
        f, san = a
        o = '%s/rep%s_%s.o' % (work, 'A' if san else '', os.path.basename(f)[:-2])
        sh(['gcc', '-std=gnu11', '-g', '-O2' if not san else '-O1', '-fstack-reuse=none', '-fopenmp', '-w'] + (['-fsanitize=address'] if san else []) + ['-I' + src, '-I' + src + '/model', '-c', f, '-o', o]); return o
    files = lib_sources(src)
    with ThreadPoolExecutor(8) as ex: r = list(ex.map(one, [(f, s) for s in (0, 1) for f in files]))
    n = len(files); return r[:n], r[n:]

def build_replay(work, h, robjs, san, defs=()):
    exe = '%s/r%s_%s' % (work, 'A' if san else '', os.path.basename(h)[:-2])
    sh(['gcc', '-std=gnu11', '-g', '-O1', '-w', '-fopenmp', '-DSX_REPLAY', '-fstack-reuse=none'] + (['-fsanitize=address'] if san else []) + list(defs) + ['-I' + ENG, '-I' + work + '/src', '-I' + V + '/harness', h, ENG + '/replay.c', ENG + '/draws.c', ENG + '/opt.c'] + robjs + ['-o', exe, '-lgsl', '-lgslcblas', '-lsqlite3', '-lm', '-lpthread'])
    return exe

if __name__ == '__main__': print(engine())
