"""Extract the AST of /repo's current source and load it."""
import os, sys, json, subprocess, hashlib, glob, time
from .interp import DB
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
FLAGS = ['-std=c++11', '-D_FILE_OFFSET_BITS=64', '-D__STDC_FORMAT_MACROS', '-DBOOST_NO_CXX11_SCOPED_ENUMS',
         '-DLIBSUB_VERSION="devel"', '-DLIBSUB_POSIX', '-DHAVE_OPENSSL=1', '-I' + REPO + '/src', '-I' + REPO]

def tool():
    exe = VERIF + '/build/extract'
    src = VERIF + '/tools/extract/extract.cc'
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(VERIF + '/build', exist_ok=True)
        cxx = subprocess.run(['llvm-config-18', '--cxxflags'], capture_output=True, text=True).stdout.replace('-fno-exceptions', '').split()
        tmp = exe + '.%d' % os.getpid()
        subprocess.run(['clang++-18', '-O1', '-std=c++17'] + cxx + [src, '-o', tmp, '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1',
                        '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
        os.replace(tmp, exe)
    return exe

def srchash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/src/*.cc') + glob.glob(REPO + '/src/*.h') + glob.glob(REPO + '/src/*.hpp') + [VERIF + '/tools/extract/extract.cc']):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def extract(tus, wrap=None):
    """-> (DB, seconds).  Always from /repo's current text; cached by content hash of all of src/."""
    t0 = time.time()
    exe = tool(); key = srchash()
    d = VERIF + '/build/ast-' + key
    os.makedirs(d, exist_ok=True)
    procs = []
    for t in tus:
        out = d + '/' + t + '.json'
        if os.path.exists(out): continue
        src = REPO + '/src/' + t + '.cc'
        if t.startswith('@'):
            src = VERIF + '/tools/extract/tu/' + t[1:] + '.cc'
        tmp = out + '.%d' % os.getpid()
        procs.append((subprocess.Popen([exe, src, '--root=' + REPO, '--'] + FLAGS, stdout=open(tmp, 'wb'), stderr=subprocess.PIPE), tmp, out, t))
    for p, tmp, out, t in procs:
        err = p.communicate()[1]
        if p.returncode != 0 or os.path.getsize(tmp) == 0:
            raise RuntimeError('extraction of %s failed: %s' % (t, err.decode()[-400:]))
        os.replace(tmp, out)
    # drop older caches
    for o in glob.glob(VERIF + '/build/ast-*'):
        if o != d and time.time() - os.path.getmtime(o) > 3600:
            import shutil; shutil.rmtree(o, ignore_errors=True)
    db = DB()
    for t in tus: db.load(json.load(open(d + '/' + t + '.json')))
    return db, time.time() - t0
