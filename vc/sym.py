"""Symbolic values, path contexts and solver access for the VC generator."""
import re, time, z3
from fractions import Fraction
from . import absstr

class ToolLimit(Exception):
    """The verifier cannot express this; the result is 'undecided', never a violation."""
class PathEnd(Exception):
    """This path is finished (infeasible, or closed by a loop back-edge)."""
class Mismatch(Exception):
    """Implementation and contract leave each other's control flow on a feasible path."""
    def __init__(self, name, why):
        super().__init__(name + ": " + why); self.name = name; self.why = why

# ---------------------------------------------------------------- types
_tcache = {}
def _split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
        'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
        'signed char': (8, True), 'unsigned char': (8, False), 'wchar_t': (32, True), '__int128': (128, True)}

ENUMS = {}      # name -> {enumerator: value}
RECORDS = {}    # name -> [(field, ty)]
BASES = {}      # name -> [base names]

def ty(s):
    if s in _tcache: return _tcache[s]
    r = _ty(s)
    _tcache[s] = r
    return r

def _ty(s):
    s = s.strip()
    while True:
        if s.startswith('const ') : s = s[6:].strip(); continue
        if s.startswith('volatile '): s = s[9:].strip(); continue
        if s.endswith(' const'): s = s[:-6].strip(); continue
        break
    if s.endswith('&&'): return ('ref', ty(s[:-2]))
    if s.endswith('&'): return ('ref', ty(s[:-1]))
    if s.endswith('*'): return ('ptr', ty(s[:-1]))
    if s.endswith('*const'): return ('ptr', ty(s[:-6]))
    if s in INTS: return ('int',) + INTS[s]
    if s == 'bool': return ('bool',)
    if s == 'char': return ('char',)
    if s in ('float', 'double', 'long double'): return ('real', s)
    if s == 'void': return ('void',)
    m = re.match(r'^(.*?)\s*\[(\d+)\]$', s)
    if m: return ('arr', ty(m.group(1)), int(m.group(2)))
    k = s.find('<')
    if k > 0 and s.endswith('>'):
        n, a = s[:k], _split_args(s[k+1:-1])
        if n == 'std::basic_string':
            return ('str',) if ty(a[0]) == ('char',) else ('vec', ty(a[0]))
        if n == 'boost::optional': return ('opt', ty(a[0]))
        if n in ('std::vector', 'std::list', 'std::deque'):
            e = ty(a[0])
            return ('vec', ('blob',) if e == ('ptr', ('char',)) else e)      # owned blocks of bytes: known by what they hold
        if n in ('std::map',): return ('map', ty(a[0]), ty(a[1]))
        if n in ('std::set',): return ('set', ty(a[0]))
        if n == 'std::shared_ptr': return ('ptr', ty(a[0]))
        if n == 'std::pair': return ('pair', ty(a[0]), ty(a[1]))
        if n in ('boost::function', 'std::function', 'boost::function0'): return ('fn', s)
    if s in ENUMS or s == '(unnamed)': return ('enum', s)
    if s.startswith('lambda#'): return ('lambda', s)
    return ('rec', s)

def strip(t):
    while t[0] == 'ref': t = t[1]
    return t

T_INT = ('int', 32, True); T_SIZE = ('int', 64, False); T_STR = ('str',); T_BOOL = ('bool',); T_REAL = ('real', 'float'); T_CHAR = ('char',)

def int_range(t):
    if t[0] == 'int':
        b, sg = t[1], t[2]
        return (-(1 << (b-1)), (1 << (b-1)) - 1) if sg else (0, (1 << b) - 1)
    if t[0] == 'enum':
        vs = [int(v) for v in ENUMS.get(t[1], {}).values()]
        if vs: return (min(vs), max(vs))
        return (-(1 << 31), (1 << 31)-1)
    if t[0] == 'char': return (-128, 127)
    if t[0] == 'bool': return (0, 1)
    raise ToolLimit('range of ' + str(t))

# ---------------------------------------------------------------- values
class Rec:
    __slots__ = ('t', 'f')
    def __init__(self, t, f): self.t, self.f = t, f
    def with_(self, k, v):
        d = dict(self.f); d[k] = v
        return Rec(self.t, d)
    def __getattr__(self, k):
        try: return object.__getattribute__(self, 'f')[k]
        except KeyError: raise AttributeError(k)
    def __repr__(self): return 'Rec<%s>%r' % (self.t, self.f)
    def __deepcopy__(self, m): return self

class Opt:
    __slots__ = ('t', 'has', 'val')
    def __init__(self, t, has, val): self.t, self.has, self.val = t, has, val
    def __repr__(self): return 'Opt(%r,%r)' % (self.has, self.val)

class Abs:
    """View [lo,hi) of an abstract sequence."""
    __slots__ = ('seq', 'lo', 'hi')
    def __init__(self, seq, lo, hi): self.seq, self.lo, self.hi = seq, lo, hi
    def __repr__(self): return 'Abs(%s,%s,%s)' % (self.seq, self.lo, self.hi)

class El:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return 'El(%r)' % (self.v,)

class Vec:
    __slots__ = ('t', 'segs', 'upds')
    def __init__(self, t, segs=(), upds=()): self.t, self.segs, self.upds = t, tuple(segs), tuple(upds)
    def __repr__(self): return 'Vec(%r,%r)' % (self.segs, self.upds)

class MapV:
    """base: None (empty) or a Seg-sorted term; chain: later entries win."""
    __slots__ = ('kt', 'vt', 'base', 'chain')
    def __init__(self, kt, vt, base=None, chain=()): self.kt, self.vt, self.base, self.chain = kt, vt, base, tuple(chain)

class CharV:
    """A char with symbolic contents: code is 0..255, unit is the one-char string."""
    __slots__ = ('_code', 'unit')
    def __init__(self, code, unit=None): self._code, self.unit = code, unit
    @property
    def code(self):
        if callable(self._code): self._code = self._code()
        return self._code
    def __repr__(self): return 'CharV(%s)' % self.code

class Buf:
    """A char array: ordered writes (off, len, src)."""
    __slots__ = ('size', 'writes')
    def __init__(self, size, writes=()): self.size, self.writes = size, tuple(writes)

class LV:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root, self.path = root, tuple(path)
    def sub(self, *p): return LV(self.root, self.path + p)
    def __repr__(self): return 'LV(%s%s)' % (self.root.name, ''.join('.' + str(p) for p in self.path))

class Root:
    __slots__ = ('name', 't', 'v', 'serial')
    def __init__(self, name, t, v, serial): self.name, self.t, self.v, self.serial = name, t, v, serial

class Ptr:
    """Pointer: target LV, or a char position inside a buffer LV / string value."""
    __slots__ = ('lv', 'off', 'sv')
    def __init__(self, lv=None, off=0, sv=None): self.lv, self.off, self.sv = lv, off, sv

class NullP:
    pass
NULL = NullP()

class Opaque:
    """A value nobody inspects (error messages, streams' results...)."""
    def __init__(self, why=''): self.why = why
    def __repr__(self): return 'Opaque(%s)' % self.why

class Closure:
    def __init__(self, node, env, this): self.node, self.env, self.this = node, env, this

SegSort = z3.DeclareSort('Seg')
is_term = lambda v: isinstance(v, z3.ExprRef)

def zstr(s):
    if isinstance(s, str):
        return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))
    return s
def zint(v): return z3.IntVal(v) if isinstance(v, (int,)) else v
def zreal(v):
    if isinstance(v, bool): raise ToolLimit('bool as real')
    if isinstance(v, (int, Fraction)): return z3.RealVal(str(v))
    if z3.is_int(v): return z3.ToReal(v)
    return v
def zbool(v): return z3.BoolVal(v) if isinstance(v, bool) else v

def lift(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): return z3.RealVal(str(v))
    if isinstance(v, str): return zstr(v)
    return v

def unlift(t):
    """z3 literal -> python value"""
    if z3.is_int_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_string_value(t): return zval_str(t)
    return t

def zval_str(t):
    s = t.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)

def conj(*fs):
    out = []
    for f in fs:
        if f is True: continue
        if f is False: return False
        out.append(f)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def disj(*fs):
    out = []
    for f in fs:
        if f is False: continue
        if f is True: return True
        out.append(f)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def neg(f): return (not f) if isinstance(f, bool) else z3.Not(f)

# ---------------------------------------------------------------- statistics
class Stats:
    def __init__(self):
        self.oblig = {}        # name -> dict(n, ok, refuted, unknown, loc)
        self.solver_s = 0.0; self.queries = 0; self.paths = 0; self.backedges = 0; self.rounds = 0
        self.backend = {}
        self.assumed = set(); self.models = set(); self.functions = set(); self.inlined = set(); self.modular = set()
        self.undecided = []; self.mismatch = []; self.loops = set()
    def fork(self):
        s = Stats(); s.prev = self
        return s
    def ob(self, name, ok):
        o = self.oblig.setdefault(name, {'n': 0, 'ok': 0, 'refuted': [], 'unknown': 0, 'loc': ''})
        o['n'] += 1
        if ok: o['ok'] += 1
        else: o['unknown'] += 1; o.setdefault('why', 'solver: unknown')
    def join(self, s):
        for n, o in s.oblig.items(): self.oblig[n] = o
        self.solver_s += s.solver_s; self.queries += s.queries; self.paths += s.paths; self.backedges += s.backedges
        for k, v in s.backend.items(): self.backend[k] = self.backend.get(k, 0) + v
        for a in ('assumed', 'models', 'functions', 'inlined', 'modular', 'loops'): getattr(self, a).update(getattr(s, a))
        self.mismatch += s.mismatch

_amemo = {}; _akeep = []; _bmemo = {}
# ---------------------------------------------------------------- context of one exploration
class Ctx:
    def __init__(self, stats, timeout_ms=4000, deadline=None):
        self.stats = stats; self.timeout = timeout_ms; self.deadline = deadline
        self.trail = []; self.fuel = 100000
        self.axioms = []; self.skip = False; self.branch_ms = 400
        self.begin()

    def begin(self):
        self.s = None; self.pend = list(self.axioms); self.strings = False; self.facts = set(); self.elem_inv = {}; self.asserted = set()
        self.q = z3.Solver(); self.q_ms = None; self.s_ms = None
        for a in self.axioms: self.to_q(a)
        self.pos = 0; self.pc = []; self.known = {}; self.keep = []; self.n = 0; self.serial = 0
        self.probe = 0; self.noob = 0

    # two solvers: q (strings abstracted, fast; "unsat" is final) and s (exact, built on demand)
    def abstract(self, f):
        t, fs = absstr.tr(f)
        if fs: self.strings = True
        for i, ax in fs:
            if i not in self.facts:
                self.facts.add(i); self.q.add(*ax)
        return t
    def to_q(self, f): self.q.add(self.abstract(f))
    def add(self, f): self.to_q(f); self.pend.append(f)
    def full(self):
        if self.s is None: self.s = z3.Solver(); self.s_ms = None
        if self.pend: self.s.add(*self.pend); self.pend = []
        return self.s

    def live(self): return self.pos >= len(self.trail)

    def tick(self):
        if self.deadline and time.monotonic() > self.deadline: raise ToolLimit('time budget exhausted')

    def assume(self, f):
        if f is True: return
        if f is False: raise PathEnd()
        k = f.get_id()
        m = _amemo.get(k)
        if m is None:
            g = z3.simplify(f)
            kn = []
            if not (z3.is_true(g) or z3.is_false(g)):
                def both(c):
                    n = z3.simplify(z3.Not(c)); kn.append((c.get_id(), True)); kn.append((n.get_id(), False)); _akeep.append((c, n))
                both(g)
                if z3.is_and(g):
                    for c in g.children(): both(c)
                kn.append((k, True))
            _akeep.append((f, g))
            m = _amemo[k] = (z3.is_true(g), z3.is_false(g), kn)
        if m[0]: return
        if m[1]: raise PathEnd()
        if k in self.asserted: return
        self.asserted.add(k)
        self.known.update(m[2])
        self.pc.append(f)
        self.add(f)

    def check(self, *fs, ms=None, fast=False):
        """fast: an abstract "satisfiable" is good enough"""
        self.tick()
        t = time.monotonic(); self.stats.queries += 1
        ms = ms or self.timeout
        try:
            gs = [self.abstract(f) for f in fs]
            if ms != self.q_ms: self.q.set('timeout', ms); self.q_ms = ms
            r = self.q.check(*gs); self.last = self.q
            if r != z3.unsat and self.strings and not fast:
                s = self.full(); self.last = s
                if ms != self.s_ms: s.set('timeout', ms); self.s_ms = ms
                r = s.check(*fs)
        except z3.Z3Exception as e:
            r = z3.unknown
        self.stats.solver_s += time.monotonic() - t
        return r

    def decide(self, c):
        """Concrete/syntactic decision without the solver; None if symbolic."""
        if isinstance(c, bool): return c
        g = z3.simplify(c)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        k = self.known.get(g.get_id())
        if k is not None: return k
        k = self.known.get(c.get_id())
        return k

    def branch(self, c):
        d = self.decide(c)
        if d is not None: return d
        if self.probe: raise NeedBranch()
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]; self.pos += 1
            self.assume(c if v else z3.Not(c))
            return v
        self.fuel -= 1
        if self.fuel < 0: raise ToolLimit('too many branches')
        ct = self.check(c, ms=self.branch_ms, fast=True)
        if ct == z3.unsat:
            self.trail.append((False, False)); self.pos += 1; self.assume(z3.Not(c)); return False
        cf = self.check(z3.Not(c), ms=self.branch_ms, fast=True)
        if cf == z3.unsat:
            self.trail.append((True, False)); self.pos += 1; self.assume(c); return True
        self.trail.append((True, True)); self.pos += 1; self.assume(c)
        return True

    def next_path(self):
        while self.trail and not self.trail[-1][1]: self.trail.pop()
        if not self.trail: return False
        self.trail[-1] = (not self.trail[-1][0], False)
        return True

    def fresh_name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    # -------- obligations
    def oblige(self, name, f, loc=''):
        """Every obligation must hold under the path condition."""
        if self.noob: return True
        if self.skip:
            if f is False: raise PathEnd()
            if f is not True: self.known_add(f)
            return True
        if not self.live():      # already examined on an earlier path with this prefix
            if f is False: return False
            if f is not True: self.known_add(f)
            return True
        o = self.stats.oblig.setdefault(name, {'n': 0, 'ok': 0, 'refuted': [], 'unknown': 0, 'loc': loc})
        o['n'] += 1
        if f is True: o['ok'] += 1; self._be('syntactic'); return True
        if f is not False:
            d = self.decide(f)
            if d is True: o['ok'] += 1; self._be('syntactic'); return True
        r = z3.sat if f is False else self.check(z3.Not(f))
        if f is False: r = self.check()
        if r == z3.unsat:
            o['ok'] += 1; self._be('z3 %s' % z3.get_version_string())
            if f is not False: self.known_add(f)
            return True
        if r == z3.unknown:
            if f is not False and self.portfolio(f):
                o['ok'] += 1; self.known_add(f); return True
            o['unknown'] += 1; o.setdefault('why', 'solver: unknown at %s' % loc)
            if f is not False: self.assume(f)
            return False
        m = self.last.model()
        o['refuted'].append({'loc': loc, 'model': self.model_values(m), 'goal': str(f)[:600]})
        if f is False: raise PathEnd()
        self.assume(f)
        return False

    def known_add(self, f):
        self.known[f.get_id()] = True; self.keep.append(f)
        g = z3.simplify(f); self.known[g.get_id()] = True; self.keep.append(g)
        self.add(f)

    def _be(self, b): self.stats.backend[b] = self.stats.backend.get(b, 0) + 1

    def general(self, f):
        """Is the formula valid on its own (its constants arbitrary)?"""
        s = z3.Solver(); s.set('timeout', 1500); s.add(z3.Not(f))
        t = time.monotonic(); r = s.check(); self.stats.solver_s += time.monotonic() - t
        if r == z3.unsat: self._be('z3'); return True
        if r == z3.sat: return False
        return self.cvc5(s, 30)

    def portfolio(self, f):
        """Second opinion: cvc5 on the same query."""
        s2 = z3.Solver(); s2.add(self.full().assertions()); s2.add(z3.Not(f))
        return self.cvc5(s2, 10)

    def cvc5(self, s2, sec):
        import subprocess, tempfile, os
        t = time.monotonic()
        smt = '(set-logic ALL)\n' + s2.to_smt2()
        fd, p = tempfile.mkstemp(suffix='.smt2'); os.write(fd, smt.encode()); os.close(fd)
        try:
            r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (sec * 1000), p], capture_output=True, text=True, timeout=sec + 5).stdout
        except Exception: r = ''
        os.unlink(p)
        self.stats.solver_s += time.monotonic() - t
        if r.startswith('unsat'): self._be('cvc5'); return True
        return False

    def prove(self, f, quick=True):
        """Is f entailed?  (used for invariant inference; not an obligation)"""
        if isinstance(f, bool): return f
        d = self.decide(f)
        if d is not None: return d
        return self.check(z3.Not(f), ms=self.branch_ms if quick else self.timeout) == z3.unsat

    def value(self, n):
        """the number that n must be, or None"""
        if not is_term(n): return n
        g = z3.simplify(n)
        if z3.is_int_value(g): return g.as_long()
        k = z3.Int('value?')
        try:
            if self.q.check(self.abstract(k == n)) != z3.sat: return None
            v = self.q.model()[k]
        except z3.Z3Exception: return None
        if v is None or not z3.is_int_value(v): return None
        return v.as_long() if self.prove(n == v) else None

    def model_values(self, m):
        out = {}
        try:
            for d in m.decls():
                if d.arity() == 0 and len(out) < 60: out[d.name()] = str(m[d])[:200]
                elif d.arity() > 0 and len(out) < 80: out[d.name() + '()'] = str(m[d])[:300]
        except Exception: pass
        return out

class NeedBranch(Exception): pass

# ---------------------------------------------------------------- UFs
_ufs = {}
def _sort(v):
    return v.sort()
KINDS = {'int': z3.IntSort(), 'bool': z3.BoolSort(), 'real': z3.RealSort(), 'str': z3.StringSort(), 'seg': SegSort}
def uf(name, kind, args):
    args = [lift(a) for a in args]
    key = (name, kind, tuple(a.sort().name() for a in args))
    f = _ufs.get(key)
    if f is None:
        f = z3.Function(name + '/' + kind + '/' + ','.join(key[2]), *([a.sort() for a in args] + [KINDS[kind]])) if args else None
        if not args: return z3.Const(name, KINDS[kind])
        _ufs[key] = f
    return f(*args)

class Sym:
    """Value-level operations over a Ctx."""
    def __init__(self, ctx): self.c = ctx

    def kind(self, t):
        k = t[0]
        if k in ('int', 'enum', 'char'): return 'int'
        if k == 'real': return 'real'
        if k == 'bool': return 'bool'
        if k in ('str', 'wstr'): return 'str'
        return None

    def _range(self, t, term):
        lo, hi = int_range(t)
        self.c.assume(z3.And(term >= lo, term <= hi))

    # make a value of type t from leaf generator g(kind, leafname) -> term
    def build(self, t, g, nm=''):
        t = strip(t)
        k = t[0]
        if k in ('int', 'enum'):
            v = g('int', nm)
            if is_term(v) and not z3.is_int_value(v): self._range(t, v)
            return v
        if k == 'char':
            v = g('int', nm)
            self.c.assume(z3.And(v >= 0, v <= 255))
            return CharV(v, None)
        if k == 'real': return g('real', nm)
        if k == 'bool': return g('bool', nm)
        if k in ('str', 'wstr', 'blob'): return g('str', nm)
        if k == 'opt': return Opt(t[1], g('bool', nm + '.has'), self.build(t[1], g, nm + '.val'))
        if k == 'vec':
            s = g('seg', nm); n = uf('seglen', 'int', [s]); self.c.assume(z3.And(n >= 0, n < (1 << 40)))
            return Vec(t[1], (Abs(s, 0, n),))
        if k == 'map': return MapV(t[1], t[2], g('seg', nm), ())
        if k == 'rec':
            fs = RECORDS.get(t[1])
            if fs is None: raise ToolLimit('fresh value of type ' + t[1])
            return Rec(t[1], {f: self.build(ft, g, nm + '.' + f) for f, ft in all_fields(t[1])})
        if k == 'pair': return Rec('pair', {'first': self.build(t[1], g, nm + '.first'), 'second': self.build(t[2], g, nm + '.second')})
        raise ToolLimit('fresh value of type %s' % (t,))

    def fresh(self, t, name):
        return self.build(t, lambda kind, nm: z3.Const(name + nm, KINDS[kind]))

    def ufv(self, name, t, *args):
        a = self.flat(args)
        return self.cached((name, t) + tuple(x.get_id() for x in a), a, lambda: self.build(t, lambda kind, nm: uf(name + nm, kind, a)))

    def cached(self, key, keep, f):
        """build once, assert its range facts on every path"""
        m = _bmemo.get(key)
        if m is None:
            c = self.c; old = c.assume; fs = []
            c.assume = fs.append
            try: v = f()
            finally: del c.assume
            m = _bmemo[key] = (v, fs, keep)
        for x in m[1]: self.c.assume(x)
        return m[0]

    def flat(self, args):
        out = []
        for v in args: self._flat(v, out)
        return out

    def _flat(self, v, out):
        if v is None or isinstance(v, (NullP, Opaque)): return
        if isinstance(v, (bool, int, Fraction, str)) or is_term(v): out.append(lift(v)); return
        if isinstance(v, CharV): out.append(v.code); return
        if isinstance(v, Rec):
            for k in sorted(v.f): self._flat(v.f[k], out)
            return
        if isinstance(v, Opt):
            h = v.has; out.append(zbool(h))
            d = self.default_leaves(v.t)
            if v.val is None or h is False: out.extend(d); return
            o = []; self._flat(v.val, o)
            if h is True: out.extend(o)
            else: out.extend(z3.If(h, a, b) for a, b in zip(o, d))
            return
        if isinstance(v, Vec): out.append(self.vec_term(v)); return
        if isinstance(v, MapV): out.append(self.map_term(v)); return
        raise ToolLimit('argument of abstract function: %r' % (v,))

    def default_leaves(self, t):
        t = strip(t); k = t[0]
        if k in ('int', 'enum', 'char'): return [z3.IntVal(0)]
        if k == 'real': return [z3.RealVal(0)]
        if k == 'bool': return [z3.BoolVal(False)]
        if k in ('str', 'wstr'): return [z3.StringVal('')]
        if k == 'opt': return [z3.BoolVal(False)] + self.default_leaves(t[1])
        if k == 'rec':
            o = []
            for f, ft in sorted(all_fields(t[1])): o += self.default_leaves(ft)
            return o
        if k in ('vec', 'map'): return [z3.Const('emptyseg', SegSort)]
        raise ToolLimit('default of %s' % (t,))

    def vec_term(self, v):
        if v.upds: raise ToolLimit('vec_term of updated vector')
        cur = z3.Const('emptyseg', SegSort)
        for s in v.segs:
            if isinstance(s, Abs):
                a = s.seq
                full = isinstance(s.lo, int) and s.lo == 0 and self.same(s.hi, uf('seglen', 'int', [s.seq]))
                if not full: a = uf('segview', 'seg', [s.seq, s.lo, s.hi])
                cur = a if z3.eq(cur, z3.Const('emptyseg', SegSort)) else uf('segcat', 'seg', [cur, a])
            else:
                o = []; self._flat(s.v, o)
                cur = uf('segpush', 'seg', [cur] + o)
        return cur

    def map_term(self, m):
        cur = m.base if m.base is not None else z3.Const('emptyseg', SegSort)
        for k, v in m.chain:
            o = []; self._flat(k, o); self._flat(v, o)
            cur = uf('mapput', 'seg', [cur] + o)
        return cur

    def same(self, a, b):
        """syntactic equality of scalars"""
        if not is_term(a) and not is_term(b): return type(a) == type(b) and a == b
        a, b = lift(a), lift(b)
        if a.get_id() == b.get_id(): return True
        if a.sort() != b.sort(): return False
        return z3.is_true(z3.simplify(a == b))

    # -------- equality as a formula
    def eq(self, a, b):
        if a is b: return True
        if isinstance(a, CharV) or isinstance(b, CharV):
            ca = a.code if isinstance(a, CharV) else (a & 0xff if isinstance(a, int) else None)
            cb = b.code if isinstance(b, CharV) else (b & 0xff if isinstance(b, int) else None)
            if ca is None or cb is None: raise ToolLimit('char compare')
            return self.eq(ca, cb)
        sc = (bool, int, Fraction, str)
        if isinstance(a, sc) and isinstance(b, sc): return a == b
        if isinstance(a, sc) or is_term(a):
            if not (isinstance(b, sc) or is_term(b)): raise ToolLimit('eq %r %r' % (a, b))
            a, b = lift(a), lift(b)
            if z3.is_real(a) and z3.is_int(b): b = z3.ToReal(b)
            if z3.is_real(b) and z3.is_int(a): a = z3.ToReal(a)
            if a.sort() != b.sort(): raise ToolLimit('eq of sorts %s %s' % (a.sort(), b.sort()))
            r = z3.simplify(a == b)
            if z3.is_true(r): return True
            if z3.is_false(r): return False
            return a == b
        if isinstance(a, Rec):
            if not isinstance(b, Rec): raise ToolLimit('eq rec')
            ks = set(a.f) | set(b.f)
            if set(a.f) != set(b.f): raise ToolLimit('records differ in fields: %s' % (set(a.f) ^ set(b.f)))
            return conj(*[self.eq(a.f[k], b.f[k]) for k in sorted(ks)])
        if isinstance(a, Opt):
            h = self.eq(a.has, b.has)
            if a.has is False or b.has is False or a.val is None or b.val is None: return h
            if h is False: return False
            e = self.eq(a.val, b.val)
            if e is True: return h
            if a.has is True: return conj(h, e)
            return conj(h, z3.Implies(zbool(a.has), zbool(e)))
        if isinstance(a, Vec): return self.eq_vec(a, b)
        if isinstance(a, MapV):
            if len(a.chain) == len(b.chain) and ((a.base is None) == (b.base is None)) and (a.base is None or z3.eq(a.base, b.base)):
                return conj(*[conj(self.eq(x[0], y[0]), self.eq(x[1], y[1])) for x, y in zip(a.chain, b.chain)])
            if a.base is None and b.base is None and all(isinstance(k, (int, str)) for k, _ in a.chain + b.chain):
                da, db = dict(a.chain), dict(b.chain)
                if set(da) != set(db): return False
                return conj(*[self.eq(da[k], db[k]) for k in da])
            raise ToolLimit('map equality')
        if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)): raise ToolLimit('comparing opaque values')
        if isinstance(a, LV) and isinstance(b, LV): return a.root is b.root and a.path == b.path
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.sv is not None and b.sv is not None: return self.eq(a.off, b.off)
            if a.lv is not None and b.lv is not None and a.lv.root is b.lv.root and a.lv.path == b.lv.path: return self.eq(a.off, b.off)
        raise ToolLimit('eq %r %r' % (type(a), type(b)))

    def vlen(self, v):
        n = 0
        for s in v.segs:
            n = add(n, sub(s.hi, s.lo)) if isinstance(s, Abs) else add(n, 1)
        return n

    def norm(self, v):
        """drop empty abstract segments"""
        segs = []
        for s in v.segs:
            if isinstance(s, Abs) and self.same(s.lo, s.hi): continue
            segs.append(s)
        return Vec(v.t, segs, v.upds)

    def eq_vec(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a.upds or b.upds:
            if len(a.upds) != len(b.upds): raise ToolLimit('vector update chains differ')
            u = conj(*[conj(self.eq(x[0], y[0]), self.eq(x[1], y[1])) for x, y in zip(a.upds, b.upds)])
            return conj(u, self.eq_vec(Vec(a.t, a.segs), Vec(b.t, b.segs)))
        if len(a.segs) == len(b.segs) and all(type(x) == type(y) for x, y in zip(a.segs, b.segs)):
            fs = []
            for x, y in zip(a.segs, b.segs):
                if isinstance(x, El): fs.append(self.eq(x.v, y.v))
                else:
                    if z3.eq(x.seq, y.seq): fs += [self.eq(x.lo, y.lo), self.eq(x.hi, y.hi)]
                    elif self.same(x.lo, 0) and self.same(y.lo, 0): fs += [x.seq == y.seq, self.eq(x.hi, y.hi)]
                    else: fs.append(False)
            return conj(*fs)
        # lengths known to differ?
        la, lb = self.vlen(a), self.vlen(b)
        le = self.eq(la, lb)
        if le is False: return False
        if is_term(le) and self.c.decide(le) is False: return False
        if not a.segs and not b.segs: return True
        if all(isinstance(s, El) for s in a.segs + b.segs): return False
        # e.g. Abs vs Abs+El with the same base: sizes differ
        if is_term(le) and self.c.prove(z3.Not(le)): return False
        raise ToolLimit('vector shapes: %r vs %r' % (a, b))

    # -------- element access
    def seq_elem(self, t, seq, k):
        r = self.cached(('elem', t, seq.get_id(), k if isinstance(k, int) else k.get_id()), (seq, k), lambda: self.build(t, lambda kind, nm: uf('elem' + nm, kind, [seq, k])))
        for p in self.c.elem_inv.get(seq.get_id(), ()):
            for f in p(r): self.c.assume(f)
        return r

    def vget(self, v, k):
        for i, val in reversed(v.upds):
            if self.c.branch(self.eq(i, k)): return val
        off = 0
        for s in v.segs:
            if isinstance(s, El):
                if len(v.segs) == 1 or self.c.branch(self.eq(k, off)): return s.v
                off = add(off, 1)
            else:
                n = sub(s.hi, s.lo)
                if s is v.segs[-1] or self.c.branch(lt(k, add(off, n))):
                    return self.seq_elem(v.t, s.seq, add(s.lo, sub(k, off)))
                off = add(off, n)
        raise PathEnd()

    def vset(self, v, k, val):
        if all(isinstance(s, El) for s in v.segs) and isinstance(k, int) and not v.upds:
            segs = list(v.segs); segs[k] = El(val)
            return Vec(v.t, segs)
        # last element of an El-terminated vector
        if v.segs and isinstance(v.segs[-1], El) and not v.upds and self.same(k, sub(self.vlen(v), 1)):
            return Vec(v.t, v.segs[:-1] + (El(val),))
        if v.segs and isinstance(v.segs[-1], Abs) and not v.upds and self.same(k, sub(self.vlen(v), 1)):
            g = v.segs[-1]
            if self.c.prove(zbool(lt(g.lo, g.hi))): return Vec(v.t, v.segs[:-1] + (Abs(g.seq, g.lo, sub(g.hi, 1)), El(val)))
        # near the end of one that ends in an abstract part
        if v.segs and not v.upds and is_term(self.vlen(v)):
            for j in (1, 2, 3):
                if not self.same(k, sub(self.vlen(v), j)): continue
                segs, tail = list(v.segs), []
                while len(tail) < j and segs:
                    g = segs[-1]
                    if isinstance(g, El): tail.insert(0, segs.pop()); continue
                    if not self.c.prove(zbool(lt(g.lo, g.hi))): break
                    h = sub(g.hi, 1); segs[-1] = Abs(g.seq, g.lo, h); tail.insert(0, El(self.seq_elem(v.t, g.seq, h)))
                if len(tail) == j: tail[0] = El(val); return Vec(v.t, tuple(segs) + tuple(tail))
        ups = [u for u in v.upds if not self.same(u[0], k)]
        return Vec(v.t, v.segs, tuple(ups) + ((k, val),))

    def vback(self, v):
        if v.segs and isinstance(v.segs[-1], El) and not v.upds: return v.segs[-1].v
        return self.vget(v, sub(self.vlen(v), 1))

    def vpop(self, v):
        v = self.norm(v)
        s = v.segs[-1]
        ups = v.upds
        if ups:
            last = sub(self.vlen(v), 1)
            for i, val in ups:
                if not self.c.branch(self.eq(i, last)): continue
            ups = tuple(u for u in ups if not self.c.branch(self.eq(u[0], last)))
        if isinstance(s, El): return Vec(v.t, v.segs[:-1], ups)
        return self.norm(Vec(v.t, v.segs[:-1] + (Abs(s.seq, s.lo, sub(s.hi, 1)),), ups))

    def vpopfront(self, v):
        v = self.norm(v)
        if v.upds: raise ToolLimit('pop_front of updated')
        s = v.segs[0]
        if isinstance(s, El): return Vec(v.t, v.segs[1:])
        return self.norm(Vec(v.t, (Abs(s.seq, add(s.lo, 1), s.hi),) + v.segs[1:]))

    # -------- maps
    def map_find(self, m, k):
        """-> (found?, value or None); forks"""
        conc = all(isinstance(x, (int, str)) for x, _ in m.chain)
        if not is_term(k) and not isinstance(k, CharV) and conc and m.base is None:
            for x, v in reversed(m.chain):
                if x == k: return True, v
            return False, None
        if conc and m.base is None and len(m.chain) > 8 and all(isinstance(v, int) for _, v in m.chain):
            tab = dict(m.chain); key = 'tab_%x' % (hash(tuple(sorted(tab.items()))) & 0xffffffffffff)
            kk = k
            if isinstance(k, CharV): kk = z3.If(k.code < 128, k.code, k.code - 256)
            h = uf(key + '.has', 'bool', [kk])
            if self.c.branch(h):
                val = uf(key + '.get', 'int', [kk])
                self.tabs[key] = tab
                return True, val
            return False, None
        for x, v in reversed(m.chain):
            if self.c.branch(self.eq(x, k)): return True, v
        if m.base is None: return False, None
        o = []; self._flat(k, o)
        if self.c.branch(uf('map_has', 'bool', [m.base] + o)):
            return True, self.build(m.vt, lambda kind, nm: uf('map_get' + nm, kind, [m.base] + o))
        return False, None
    tabs = {}

    def map_put(self, m, k, v):
        tk = type(k)
        if tk is int or tk is str:
            same = [j for j, (x, _) in enumerate(m.chain) if type(x) is tk and x == k]
            ch = m.chain if not same else tuple(e for j, e in enumerate(m.chain) if j not in same)
            return MapV(m.kt, m.vt, m.base, ch + ((k, v),))
        ch = tuple((x, y) for x, y in m.chain if not (not is_term(x) and not isinstance(k, CharV) and not is_term(k) and x == k) and not (is_term(x) and is_term(k) and self.same(x, k)))
        return MapV(m.kt, m.vt, m.base, ch + ((k, v),))

def all_fields(name):
    out = []
    for b in BASES.get(name, []):
        if b in RECORDS: out += all_fields(b)
    return out + RECORDS.get(name, [])

# ---------------------------------------------------------------- arithmetic on ints / reals (mathematical)
def _num(v):
    if isinstance(v, CharV): return z3.If(v.code < 128, v.code, v.code - 256)
    if isinstance(v, bool): return int(v)
    if is_term(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v
def _simp(t):
    t = z3.simplify(t)
    return unlift(t)
def _pair(a, b):
    a, b = _num(a), _num(b)
    if not is_term(a) and not is_term(b): return a, b, False
    a, b = lift(a), lift(b)
    if z3.is_real(a) and z3.is_int(b): b = z3.ToReal(b)
    if z3.is_real(b) and z3.is_int(a): a = z3.ToReal(a)
    return a, b, True
def add(a, b):
    a, b, s = _pair(a, b)
    return _simp(a + b) if s else a + b
def sub(a, b):
    a, b, s = _pair(a, b)
    return _simp(a - b) if s else a - b
def mul(a, b):
    a, b, s = _pair(a, b)
    return _simp(a * b) if s else a * b
def lt(a, b):
    a, b, s = _pair(a, b)
    return a < b
def le(a, b):
    a, b, s = _pair(a, b)
    return a <= b
def tdiv(a, b):
    """C integer division (truncation); b must be non-zero"""
    a, b, s = _pair(a, b)
    if not s:
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if z3.is_int_value(b) and b.as_long() > 0:
        return _simp(z3.If(a >= 0, a / b, -((-a) / b)))
    ab = z3.If(a >= 0, a, -a); bb = z3.If(b >= 0, b, -b)
    q = ab / bb
    return z3.If((a >= 0) == (b >= 0), q, -q)
def tmod(a, b):
    return sub(a, mul(tdiv(a, b), b))
def rdiv(a, b):
    a, b = _num(a), _num(b)
    if not is_term(a) and not is_term(b):
        return Fraction(a) / Fraction(b)
    return _simp(zreal(lift(a)) / zreal(lift(b)))
def rfloor(a):
    if not is_term(a):
        import math
        return math.floor(a)
    if z3.is_int(a): return a
    return _simp(z3.ToInt(a))
def rtrunc(a):
    if not is_term(a): return int(a)
    if z3.is_int(a): return a
    return _simp(z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)))
def rrint(a):
    """round half to even, exactly"""
    if not is_term(a):
        return round(Fraction(a))
    if z3.is_int(a): return a
    h = a + z3.RealVal('1/2')
    f = z3.ToInt(h)
    return z3.If(z3.And(z3.ToReal(f) == h, f % 2 == 1), f - 1, f)
