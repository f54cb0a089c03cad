"""Concrete side: run the real code (ASan/UBSan build of /repo/src) on cases and judge
the outcome with the same contracts in concrete mode."""
import os, sys, json, subprocess, glob, hashlib, tempfile, time, shutil, threading
from fractions import Fraction
from .sym import Rec, Opt, Vec, El
from .ops import Ops, OutOfScope
from .load import VERIF, REPO
from .prod import SpecThrow, Loop, State

CF = ['-D_FILE_OFFSET_BITS=64', '-D__STDC_FORMAT_MACROS', '-DBOOST_NO_CXX11_SCOPED_ENUMS', '-DLIBSUB_VERSION="devel"', '-DLIBSUB_POSIX',
      '-DHAVE_OPENSSL=1', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=float-cast-overflow', '-D_GLIBCXX_ASSERTIONS', '-w']

def drvhash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/src/*.cc') + glob.glob(REPO + '/src/*.h') + glob.glob(REPO + '/src/*.hpp') + glob.glob(REPO + '/src/wscript') + [VERIF + '/replay/driver.cc']):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def build_driver(jobs=8):
    """-> path of the driver, or raises.  Objects are cached per source text."""
    d = VERIF + '/build/drv-' + drvhash()
    exe = d + '/driver'
    if os.path.exists(exe): return exe
    os.makedirs(d, exist_ok=True)
    inc = ['-I' + REPO + '/src', '-I' + REPO]
    srcs = [s for s in sorted(glob.glob(REPO + '/src/*.cc')) if os.path.basename(s) not in ('version.cc',)]
    hdr = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/src/*.h') + glob.glob(REPO + '/src/*.hpp')): hdr.update(open(f, 'rb').read())
    obj = VERIF + '/build/obj'; os.makedirs(obj, exist_ok=True)
    todo = []; objs = []
    def okey(src, extra): 
        return obj + '/' + hashlib.sha256(hdr.digest() + src.encode() + open(src, 'rb').read() + ' '.join(CF + extra).encode()).hexdigest()[:24] + '.o'
    for s in srcs:
        o = okey(s, []); objs.append(o)
        if not os.path.exists(o): todo.append((['g++', '-std=c++11'] + CF + inc + ['-c', s], o))
    drv = VERIF + '/replay/driver.cc'
    o1 = okey(drv, ['-DROB']); o2 = okey(drv, [])
    dcmd = lambda x: ['g++', '-std=c++17'] + CF + x + inc + ['-c', drv]
    if not os.path.exists(o1) and not os.path.exists(o2): todo.append((dcmd(['-DROB']), o1))
    lock = threading.Lock(); errs = []
    def work():
        while True:
            with lock:
                if not todo: return
                cmd, o = todo.pop(0 if todo[-1][1] != o1 else -1)
            tmp = o + '.%d.o' % os.getpid()
            r = subprocess.run(cmd + ['-o', tmp], capture_output=True, text=True)
            if r.returncode and o == o1:
                r = subprocess.run(dcmd([]) + ['-o', tmp], capture_output=True, text=True)
                o = o2
            if r.returncode: errs.append(r.stderr[-1500:])
            else: os.replace(tmp, o)
    ts = [threading.Thread(target=work) for _ in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise RuntimeError('driver build failed: ' + errs[0])
    objs.append(o1 if os.path.exists(o1) else o2)
    tmp = exe + '.%d' % os.getpid()
    r = subprocess.run(['g++', '-fsanitize=address,undefined'] + objs + ['-o', tmp, '-lboost_filesystem', '-lboost_locale', '-lboost_regex', '-lboost_system'], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('driver link failed: ' + r.stderr[-1500:])
    os.replace(tmp, exe)
    for o in glob.glob(VERIF + '/build/drv-*'):
        if o != d and time.time() - os.path.getmtime(o) > 3600: shutil.rmtree(o, ignore_errors=True)
    for o in glob.glob(obj + '/*.o'):
        if o not in objs and time.time() - os.path.getmtime(o) > 7200: os.unlink(o)
    return exe

def comma_locale():
    """a directory with a locale whose decimal point is a comma (none when the system has no locale sources)"""
    d = VERIF + '/build/locale'
    if not os.path.exists(d + '/de_DE.UTF-8'):
        os.makedirs(d, exist_ok=True); tmp = d + '/tmp%d' % os.getpid()
        try:
            subprocess.run(['localedef', '-i', 'de_DE', '-f', 'UTF-8', tmp], capture_output=True, timeout=60)
            if os.path.isdir(tmp): os.rename(tmp, d + '/de_DE.UTF-8')
        except (OSError, subprocess.SubprocessError): shutil.rmtree(tmp, ignore_errors=True)
    return d

def unhex(v):
    if isinstance(v, str):
        if v in ('nan', '-nan', 'inf', '-inf'): return float(v)
        try: return bytes.fromhex(v).decode('latin-1')
        except ValueError: return v
    if isinstance(v, list): return [unhex(x) for x in v]
    if isinstance(v, dict): return {k: unhex(x) for k, x in v.items()}
    return v

def run_cases(exe, lines, budget=120, par=6, case_timeout=10, confirm=True):
    """-> list of outcomes: ('ret', json) | ('throw', type, dict) | ('crash', text) | None (not run)"""
    out = [None] * len(lines)
    end = time.monotonic() + budget
    n = max(1, min(par, (len(lines) + 199) // 200))
    step = (len(lines) + n - 1) // n if lines else 1
    def work(a, b):
        i = a
        scratch = tempfile.mkdtemp(prefix='vp-replay-')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=512', UBSAN_OPTIONS='print_stacktrace=1', LC_ALL='C', LANG='C', LOCPATH=comma_locale(), TMPDIR=scratch)
        try:
            while i < b and time.monotonic() < end:
                p = subprocess.Popen([exe, scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
                data = ('\n'.join(lines[i:b]) + '\n').encode()
                last = [time.monotonic(), False]
                def feed():
                    try: p.stdin.write(data); p.stdin.close()
                    except (BrokenPipeError, OSError): pass
                err = []
                def rderr():
                    err.append(p.stderr.read())
                def dog():
                    while p.poll() is None:
                        if time.monotonic() - last[0] > case_timeout or time.monotonic() > end + 5: last[1] = True; p.kill(); return
                        time.sleep(0.2)
                tf = [threading.Thread(target=f, daemon=True) for f in (feed, rderr, dog)]
                [t.start() for t in tf]
                for l in p.stdout:
                    last[0] = time.monotonic()
                    try: r = json.loads(l)
                    except ValueError: break
                    if 'throw' in r: out[i] = ('throw', r['throw'], {k: unhex(v) if k in ('what', 'ctx') else v for k, v in r.items()})
                    else: out[i] = ('ret', unhex(r['ok']))
                    i += 1
                p.wait(); tf[1].join(5)
                if i < b:
                    e = (err[0] if err else b'').decode('latin-1')
                    if p.returncode == 3: raise RuntimeError('replay protocol error at case: %s' % lines[i][:200])
                    if time.monotonic() > end and last[1]: return
                    out[i] = ('crash', 'no answer within %ds' % case_timeout if last[1] else 'exit %s: %s' % (p.returncode, crash_text(e)))
                    i += 1
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    errs = []
    def safe(a, b):
        try: work(a, b)
        except Exception as e: errs.append(e)
    ts = [threading.Thread(target=safe, args=(k, min(k + step, len(lines)))) for k in range(0, len(lines), step)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs: raise errs[0]
    if confirm:
        # a crash or hang counts when it happens again on its own (not when the machine stalled)
        n = sure = 0
        for i, o in enumerate(out):
            if o is not None and o[0] == 'crash' and n < 12 and sure < 3:
                n += 1; again = run_cases(exe, [lines[i]], budget=60, par=1, case_timeout=25, confirm=False)[0]
                if again is not None: out[i] = again; sure += again[0] == 'crash'
    return out

def crash_text(e):
    ls = [l for l in e.split('\n') if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l or 'terminate' in l or ' in sub::' in l]
    return ' | '.join(ls[:6])[:900] or e[-300:]

# ------------------------------------------------------------------ concrete contracts
class COps(Ops):
    def __init__(self):
        Ops.__init__(self)
        self.fl = 0
    def loop(self, name, state, inv=None, variant=None, each=None, count=None, given=None): return Loop(name, state)
    def throw(self, t, *args): raise SpecThrow(t, args or None)

def conc(f, *args, **k):
    """run a contract concretely -> ('ret', v) | ('throw', type)"""
    x = COps()
    try:
        g = f(x, *args, **k)
        if hasattr(g, '__next__'):
            n = 0
            try:
                while True: next(g); n += 1
            except StopIteration as s: return ('ret', s.value)
        return ('ret', g)
    except SpecThrow as t: return ('throw', t.t, t.args_)

# ------------------------------------------------------------------ values <-> protocol
def hexs(s):
    return s.encode('latin-1').hex() or '.'
FIELDS = {
    'sub::Rational': ['numerator', 'denominator'],
    'sub::Colour': ['r', 'g', 'b'],
    'sub::FontSize': ['_proportional', '_points'],
    'sub::Time': ['_seconds', '_frames', '_rate'],
    'sub::HorizontalPosition': ['reference', 'proportional'],
    'sub::VerticalPosition': ['proportional', 'line', 'lines', 'reference'],
}
BLOCK = ['text', 'font', 'font_size', 'effect', 'effect_colour', 'colour', 'bold', 'italic', 'underline']
FIELDS['sub::Block'] = BLOCK
FIELDS['sub::RawSubtitle'] = BLOCK + ['horizontal_position', 'vertical_position', 'from', 'to', 'fade_up', 'fade_down']
FIELDS['sub::Line'] = ['horizontal_position', 'vertical_position', 'blocks']
FIELDS['sub::Subtitle'] = ['from', 'to', 'fade_up', 'fade_down', 'lines']

def js(v):
    """contract value -> what the driver prints"""
    if isinstance(v, Rec):
        return [js(v.f[k]) for k in FIELDS.get(v.t, sorted(v.f))]
    if isinstance(v, Opt): return js(v.val) if v.has else None
    if isinstance(v, Vec): return [js(e.v) for e in v.segs]
    if isinstance(v, (list, tuple)): return [js(e) for e in v]
    if isinstance(v, Fraction): return float(v)
    return v

def toks(v):
    """contract value -> driver input tokens"""
    if isinstance(v, Rec):
        fs = FIELDS[v.t]
        return ' '.join(toks(v.f[k]) for k in fs)
    if isinstance(v, Opt): return '+ ' + toks(v.val) if v.has else '-'
    if isinstance(v, Vec): return ' '.join([str(len(v.segs))] + [toks(e.v) for e in v.segs])
    if isinstance(v, bool): return '1' if v else '0'
    if isinstance(v, int): return str(v)
    if isinstance(v, (float, Fraction)): return '%.17g' % float(v)
    if isinstance(v, str): return hexs(v)
    raise TypeError(v)

def peak(v):
    if isinstance(v, float): return abs(v) if v == v else 0.0
    if isinstance(v, list): return max([peak(x) for x in v], default=0.0)
    return 0.0
def same(e, g, tol=1e-5):
    """expected vs observed"""
    if callable(e): return e(g)
    if isinstance(e, bool) or isinstance(g, bool): return e is g or (isinstance(e, int) and not isinstance(e, bool) and isinstance(g, bool) and False) or (isinstance(e, bool) and isinstance(g, bool) and e == g)
    if isinstance(e, (int, float)) and isinstance(g, (int, float)):
        if isinstance(e, int) and isinstance(g, int): return e == g
        if e != e or g != g: return e != e and g != g
        return abs(e - g) <= tol * max(1.0, abs(e), abs(g))
    if isinstance(e, list):
        if not isinstance(g, list) or len(e) != len(g): return False
        if len(e) > 20:      # a long list: what a float loses on the way from one element to the next adds up
            tol = max(tol, 1.5e-7 * len(e) * peak(e))
        return all(same(x, y, tol) for x, y in zip(e, g))
    return type(e) == type(g) and e == g

def none(t): return Opt(t, False, None)
def some(t, v): return Opt(t, True, v)
