import os, subprocess, json, sys, hashlib, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
CXX = 'clang++-18'
FLAGS = ['-std=gnu++14', '-DNDEBUG', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-fno-math-errno', '-ffp-contract=off',
         '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_GEMM_TO_COEFFBASED_THRESHOLD=1000000', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-threadsafe-statics', '-fno-strict-aliasing', '-w', '-ftrapping-math'] [:-1]
INCS = ['src/common', 'src/geometry', 'src/FGraph', 'src/PCRegistration', 'src/EigenFactors']
def library_sources():
    """the sources the libraries are built from (listed in their CMakeLists.txt), without tests, examples and timers"""
    r = []
    for c in ('common', 'geometry', 'FGraph', 'PCRegistration'):
        cm = os.path.join(REPO, 'src', c, 'CMakeLists.txt'); txt = open(cm).read() if os.path.exists(cm) else ''
        for dp, _, fn in os.walk(os.path.join(REPO, 'src', c)):
            if 'tests' in dp or 'examples' in dp: continue
            r += [os.path.relpath(os.path.join(dp, f), REPO) for f in sorted(fn) if f.endswith('.cpp') and f in txt and f != 'time_profiling.cpp']
    return sorted(r)
def bootstrap():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        _bootstrap()
def _bootstrap():
    vf = os.path.join(BUILD, 'vf'); src = os.path.join(ROOT, 'engine', 'vf.cpp')
    h = hashlib.sha256(open(src, 'rb').read() + open(os.path.join(ROOT, 'engine', 'overlay.py'), 'rb').read()).hexdigest()
    st = os.path.join(BUILD, 'stamp')
    if not (os.path.exists(vf) and os.path.exists(st) and open(st).read() == h and os.path.isdir(os.path.join(BUILD, 'eigen'))):
        subprocess.check_call(['bash', os.path.join(ROOT, 'engine', 'build.sh')])
        sys.path.insert(0, os.path.join(ROOT, 'engine')); import overlay
        overlay.main(os.path.join(BUILD, 'eigen'))
        open(st, 'w').write(h)
def compile_tu(src, out, extra=()):
    cmd = [CXX] + FLAGS + ['-I' + os.path.join(ROOT, 'harness'), '-isystem', os.path.join(BUILD, 'eigen')]
    for i in INCS: cmd += ['-I' + os.path.join(REPO, i)]
    cmd += list(extra) + [src, '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise RuntimeError('compile failed: %s\n%s' % (src, p.stderr[:4000]))
    return out
