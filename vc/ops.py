"""Library operations shared by the real code's model and by the contracts.

Every operation is dual-mode: with concrete arguments it computes (this is what
the replay oracle uses); with symbolic arguments it is either an exact theory term
or an uninterpreted function.  Each uninterpreted one is an *assumed contract on a
dependency* and is listed in the evidence (stats.models)."""
import re, z3
from fractions import Fraction
from .sym import *
from . import sym as S

SPACE = ' \t\n\v\f\r'

def c_int(s):
    """sscanf("%d") / atoi semantics"""
    m = re.match(r'[ \t\n\v\f\r]*([+-]?\d+)', s)
    return int(m.group(1)) if m else None
def c_float(s):
    m = re.match(r'[ \t\n\v\f\r]*([+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?))', s)
    if not m:
        return None
    return float(m.group(1))
def c_hex(s):
    m = re.match(r'[ \t\n\v\f\r]*([+-]?)(0[xX](?=[0-9a-fA-F]))?([0-9a-fA-F]+)', s)
    if not m: return 0
    v = int(m.group(3), 16)
    if m.group(1) == '-': v = -v
    return max(-(1 << 63), min((1 << 63) - 1, v))
def c_hexn(s, n):
    """sscanf of n consecutive %2x"""
    out = []; i = 0
    for _ in range(n):
        while i < len(s) and s[i] in SPACE: i += 1
        w = s[i:i+2]
        m = re.match(r'([+-]?)(0[xX])?([0-9a-fA-F]*)', w)
        t = m.group(0)
        if m.group(3) == '' and not (m.group(2)): break
        if m.group(2) and m.group(3) == '': 
            # glibc accepts "0x" within the field width as 0? treat as failure
            break
        out.append(int((m.group(1) or '') + m.group(3), 16)); i += len(t)
    return out

def lex_int(s):
    if not re.fullmatch(r'[+-]?[0-9]+', s): return None
    v = int(s)
    return v if -(1 << 31) <= v < (1 << 31) else None

class OutOfScope(Exception):
    """the case violates a precondition"""

class Ops:
    def __init__(self, ctx=None, sym=None, stats=None):
        self.c, self.S, self.stats = ctx, sym, stats
        self.conc = ctx is None
        self._at = {}; self._piece = {}

    def model(self, m):
        if self.stats is not None: self.stats.models.add(m)

    # ---- strings
    def slen(self, s):
        if isinstance(s, str): return len(s)
        return S._simp(z3.Length(s))

    def ne_str(self, s):
        """the string is not empty"""
        if isinstance(s, str): return s != ''
        return neg(self.S.eq(s, ''))
    def code(self, s, i):
        """byte value 0..255 of s[i] (i in range)"""
        if isinstance(s, str) and not is_term(i): return ord(s[i])
        z, i = self.lastpart(zstr(s), i)
        t = z3.StrToCode(z.at(lift(i)))
        t2 = z3.simplify(t)
        if z3.is_int_value(t2): return t2.as_long()
        k = t.get_id()
        if k not in self._at:
            self._at[k] = t
            hi = 255
            self.c.assume(z3.And(t >= 0, t <= hi) if not self.c.probe else z3.And(t >= 0, t <= hi))
        else:
            self.c.assume(z3.And(t >= 0, t <= 255))
        return t

    def lastpart(self, z, i):
        """the last character of a concatenation is the last character of its last non-empty part"""
        if not is_term(i) or z.decl().kind() != z3.Z3_OP_SEQ_CONCAT: return z, i
        if not z3.is_true(z3.simplify(lift(i) == z3.Length(z) - 1)): return z, i
        l = z.arg(z.num_args() - 1)
        if z3.is_string_value(l) or not self.c.prove(z3.Length(l) > 0): return z, i
        return self.lastpart(l, z3.Length(l) - 1)

    def ch(self, s, i):
        if isinstance(s, str) and not is_term(i): return s[i]
        r = zstr(s).at(lift(i))
        if not is_term(i) and is_term(s): self._piece[r.get_id()] = (r, s, i, 1)
        return r

    def substr(self, s, i, n=None):
        """s[i:i+n] clipped to the string"""
        if isinstance(s, str) and not is_term(i) and not is_term(n):
            return s[i:] if n is None else s[i:i+n]
        if n is None: n = sub(self.slen(s), i)
        return unlift(z3.simplify(z3.SubString(zstr(s), lift(i), lift(n))))

    def cat(self, a, b):
        if isinstance(a, str) and isinstance(b, str): return a + b
        if isinstance(a, str) and a == '': return b
        if isinstance(b, str) and b == '': return a
        if is_term(a) and is_term(b):
            p, q = self._piece.get(a.get_id()), self._piece.get(b.get_id())
            if p and q and p[2] + p[3] == q[2] and z3.eq(p[1], q[1]):      # adjacent pieces of one string
                if not self.c.probe: self.glue(p, q)
                r = self.substr(p[1], p[2], p[3] + q[3])
                if is_term(r): self._piece[r.get_id()] = (r, p[1], p[2], p[3] + q[3])
                return r
        return z3.Concat(zstr(a), zstr(b))

    _glued = {}
    def glue(self, p, q):
        f = lambda s, i, m, n: z3.Implies(z3.And(0 <= i, 0 <= m, 0 <= n), z3.Concat(z3.SubString(s, i, m), z3.SubString(s, i + m, n)) == z3.SubString(s, i, m + n))
        if 'ok' not in self._glued: self._glued['ok'] = self.c.general(f(z3.String('lemma.s'), *[z3.Int('lemma.%s' % k) for k in 'imn']))
        self.stats.ob('lemma: adjacent pieces of a string form the piece that covers both', self._glued['ok'])
        if not self._glued['ok']: raise ToolLimit('piece lemma')

    def from_code(self, c):
        if isinstance(c, int): return chr(c)
        return z3.StrFromCode(c)

    def find(self, s, p, start=0):
        """index of p at or after start, or -1"""
        if isinstance(s, str) and isinstance(p, str) and isinstance(start, int): return s.find(p, start) if start <= len(s) else -1
        return z3.IndexOf(zstr(s), zstr(p), lift(start))

    def starts(self, s, p):
        if isinstance(s, str) and isinstance(p, str): return s.startswith(p)
        return z3.PrefixOf(zstr(p), zstr(s))
    def ends(self, s, p):
        if isinstance(s, str) and isinstance(p, str): return s.endswith(p)
        return z3.SuffixOf(zstr(p), zstr(s))
    def contains(self, s, p):
        if isinstance(s, str) and isinstance(p, str): return p in s
        return z3.Contains(zstr(s), zstr(p))

    def lower(self, s):
        if isinstance(s, str): return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)
        self.model('boost::to_lower (assumed: length preserving, pure)')
        r = uf('lower', 'str', [s])
        self.c.assume(z3.Length(r) == z3.Length(s))
        return r

    def trim(self, s, chars=SPACE, side='both'):
        if isinstance(s, str):
            if side in ('both', 'left'): s = s.lstrip(chars)
            if side in ('both', 'right'): s = s.rstrip(chars)
            return s
        self.model('boost::trim family (assumed: pure; result no longer than its argument)')
        r = uf('trim_%s_%s' % (side, ''.join('%02x' % ord(c) for c in sorted(chars))), 'str', [s])
        self.c.assume(z3.Length(r) <= z3.Length(s))
        return r

    def split(self, s, chars, compress=False):
        """list of pieces (Vec of str)"""
        if isinstance(s, str):
            cls = '[' + re.escape(chars) + ']' + ('+' if compress else '')
            return Vec(T_STR, [El(x) for x in re.split(cls, s, flags=re.S)])
        self.model('boost::split (assumed: pure; at least one piece, and no more than characters plus one)')
        seg = uf('split_%s_%d' % (''.join('%02x' % ord(c) for c in sorted(chars)), compress), 'seg', [s])
        n = uf('seglen', 'int', [seg])
        self.c.assume(z3.And(n >= 1, n < (1 << 40), n <= lift(self.slen(s)) + 1))
        return Vec(T_STR, (Abs(seg, 0, n),))

    def split_lit(self, s, lit):
        if isinstance(s, str): return Vec(T_STR, [El(x) for x in s.split(lit)])
        self.model('boost::split_regex (assumed: pure; at least one piece)')
        seg = uf('splitlit_' + ''.join('%02x' % ord(c) for c in lit), 'seg', [s])
        n = uf('seglen', 'int', [seg])
        self.c.assume(z3.And(n >= 1, n < (1 << 40)))
        return Vec(T_STR, (Abs(seg, 0, n),))

    def replace_all(self, s, a, b):
        if isinstance(s, str) and isinstance(a, str) and isinstance(b, str): return s.replace(a, b) if a else s
        if isinstance(a, str) and (a == '' or a == b): return s
        self.model('boost::replace_all (assumed: pure)')
        return uf('replace_all', 'str', [s, a, b])

    def lexical_int(self, s):
        """-> (ok, value)"""
        if isinstance(s, str):
            v = lex_int(s)
            return (v is not None, v if v is not None else 0)
        self.model('boost::lexical_cast<int>(string) (assumed: pure; yields an int or throws bad_lexical_cast)')
        v = uf('lexint', 'int', [s]); ok = uf('lexok', 'bool', [s])
        self.c.assume(z3.And(v >= -(1 << 31), v < (1 << 31)))
        return ok, v

    def raw_int(self, s):
        if isinstance(s, str):
            v = c_int(s)
            return 0 if v is None else v
        self.model('raw_convert<int>(string) (assumed: pure; an int)')
        v = uf('rawint', 'int', [s])
        self.c.assume(z3.And(v >= -(1 << 31), v < (1 << 31)))
        return v

    def raw_real(self, s):
        if isinstance(s, str):
            v = c_float(s)
            if self.conc: return 0.0 if v is None else v
            return Fraction(0) if v is None else Fraction(str(v))
        self.model('raw_convert<float>(string) (assumed: pure; a finite number)')
        return uf('rawreal', 'real', [s])

    def atoi(self, s):
        if isinstance(s, str):
            v = c_int(s.split('\0')[0]); return 0 if v is None else v
        self.model('atoi (assumed: pure; an int with no more digits than the string has characters)')
        v = uf('atoi', 'int', [s]); self.c.assume(z3.And(v >= -(1 << 31), v < (1 << 31)))
        ln = lift(self.slen(s))
        for k in (1, 2, 3, 5): self.c.assume(z3.Implies(ln <= k, z3.And(v > -10 ** max(1, k - 1), v < 10 ** k)))
        return v

    def strtoll16(self, s):
        if isinstance(s, str): return c_hex(s)
        self.model('strtoll base 16 (assumed: pure; a 64-bit integer)')
        v = uf('strtoll16', 'int', [s]); self.c.assume(z3.And(v >= -(1 << 63), v < (1 << 63)))
        return v

    def hexscan(self, s, n):
        """sscanf("%2x" * n): ([matched k-th?], [values])"""
        if isinstance(s, str):
            v = c_hexn(s.split('\0')[0], n)
            return [k < len(v) for k in range(n)], v + [0] * (n - len(v))
        self.model('sscanf("%2x"...) (assumed: pure; conversions match left to right)')
        oks = [uf('hexok_%d' % k, 'bool', [s]) for k in range(n)]
        vals = [uf('hexval_%d' % k, 'int', [s]) for k in range(n)]
        for v in vals: self.c.assume(z3.And(v >= -15, v <= 255))
        return oks, vals

    def hexbytes(self, s, n):
        oks, vals = self.hexscan(s, n)
        return conj(*oks), vals

    def scan_int(self, s):
        if isinstance(s, str):
            v = c_int(s.split('\0')[0]); return v is not None, (0 if v is None else v)
        self.model('sscanf("%d") (assumed: pure; stores an int or nothing)')
        ok = uf('scanint_ok', 'bool', [s]); v = uf('scanint', 'int', [s])
        self.c.assume(z3.And(v >= -(1 << 31), v < (1 << 31)))
        self.c.assume(uf('rawint', 'int', [s]) == z3.If(ok, v, z3.IntVal(0)))
        return ok, v

    def scan_real(self, s):
        if isinstance(s, str):
            v = c_float(s.split('\0')[0]); return v is not None, (0.0 if v is None else v)
        self.model('sscanf("%f") (assumed: pure; stores a number or nothing)')
        ok = uf('scanreal_ok', 'bool', [s]); v = uf('scanreal', 'real', [s])
        self.c.assume(uf('rawreal', 'real', [s]) == z3.If(ok, v, z3.RealVal(0)))
        return ok, v

    def scan_real_here(self, s, raw=None):
        """sscanf("%f") in the current locale; raw: the text of which s is the same with this locale's decimal point"""
        ok = uf('scanlocal_ok', 'bool', [s]); v = uf('scanlocal', 'real', [s])
        self.model('sscanf("%f") in a locale (assumed: reads the number that the text spells with "." for the decimal point, if the text has no such character of its own)')
        if raw is not None:
            o, w = self.scan_real(raw)
            self.c.assume(z3.Implies(z3.Not(uf('foreign_point', 'bool', [raw])), z3.And(ok == zbool(o), z3.Implies(zbool(o), v == lift(w)))))
        return ok, v

    def utf(self, s, d):
        """boost utf_to_utf: d = 'w2u' (wide string to UTF-8) or 'u2w'"""
        if self.conc:
            if d == 'w2u': return ''.join(chr(b) for e in s.segs for b in utf8_enc(e.v))
            return Vec(('int', 32, True), [El(ord(c)) for c in utf8_dec(s)])
        self.model('boost::locale::conv::utf_to_utf (assumed: pure conversion UTF-8 <-> wide)')
        return self.S.ufv('utf_' + d, T_STR if d == 'w2u' else ('vec', ('int', 32, True)), s)

    def int_str(self, v, width=0):
        """decimal text, zero padded to width"""
        if isinstance(v, int):
            return ('%0' + str(width) + 'd') % v if width else '%d' % v
        self.model('decimal formatting of an integer (assumed: pure)')
        r = uf('intstr_%d' % width, 'str', [v])
        ln = z3.Length(r)
        self.c.assume(z3.And(ln >= max(1, width), ln <= 20))
        for w in range(1, 12):
            if w >= width: self.c.assume(z3.Implies(z3.And(v >= 0, v < 10 ** w), ln <= max(w, width)))
        self.c.assume(z3.Implies(v >= 10 ** max(1, width), ln > max(1, width)))
        return r

    def real_str(self, v):
        if self.conc: return '%g' % v
        self.model('ostream formatting of a float (assumed: pure)')
        return uf('realstr', 'str', [self.real(v)])

    def pad(self, s, w, fill):
        if isinstance(s, str) and isinstance(w, int): return fill * (w - len(s)) + s
        if isinstance(w, int) and w <= 1: return s
        self.model('setw/setfill padding (assumed: pure)')
        return uf('pad', 'str', [s, w, fill])

    def repeat(self, ch, n):
        if isinstance(ch, str) and isinstance(n, int): return ch * n
        self.model('string(n, c) (assumed: n copies)')
        r = uf('repeat', 'str', [ch, n])
        self.c.assume(z3.Implies(lift(n) >= 0, z3.Length(r) == lift(n)))
        return r

    def regex(self, rx, s, groups):
        """search -> (found, [group strings])  groups[0] is the whole match"""
        if isinstance(s, str):
            m = re.search(self.pyrx(rx), s, re.S)
            if not m: return False, None
            return True, [m.group(k) or '' for k in range(groups)]
        self.model('boost::regex_search (assumed: pure function of pattern and subject)')
        import hashlib
        key = hashlib.sha256(rx.encode('latin-1')).hexdigest()[:10]
        return uf('rx_%s' % key, 'bool', [s]), [uf('rx_%s_g%d' % (key, k), 'str', [s]) for k in range(groups)]

    def pyrx(self, rx):
        return rx.replace('[[:xdigit:]]', '[0-9a-fA-F]').replace('[[:space:]]', '[ \\t\\n\\v\\f\\r]').replace('[[:digit:]]', '[0-9]')

    def line(self, src, k):
        """the k-th line of a source, if there is one"""
        if self.conc: return Opt(T_STR, True, src[k]) if k < len(src) else Opt(T_STR, False, None)
        return self.S.ufv('srcline', ('opt', T_STR), src.f['id'], k)

    # ---- sequences
    def extend(self, v, w):
        if self.conc: return Vec(v.t, v.segs + w.segs)
        if w.upds or v.upds: raise ToolLimit('extend of updated')
        return Vec(v.t, v.segs + w.segs)
    def map_find(self, m, k):
        if self.conc:
            for a, b in m.chain:
                if a == k: return True, b
            return False, None
        return self.S.map_find(m, k)
    def map_put(self, m, k, v):
        if self.conc: return MapV(m.kt, m.vt, None, tuple((a, b) for a, b in m.chain if a != k) + ((k, v),))
        return self.S.map_put(m, k, v)
    def vpopfront(self, v):
        return Vec(v.t, v.segs[1:]) if self.conc else self.S.vpopfront(v)
    def vlen(self, v):
        if self.conc: return len(v.segs)
        return self.S.vlen(v)
    def vget(self, v, k):
        if self.conc: return v.segs[k].v
        return self.S.vget(v, k)
    def push(self, v, x):
        return Vec(v.t, v.segs + (El(x),), v.upds)
    def vback(self, v):
        return v.segs[-1].v if self.conc else self.S.vback(v)
    def vpop(self, v):
        return Vec(v.t, v.segs[:-1]) if self.conc else self.S.vpop(v)
    def vset(self, v, k, x):
        if self.conc:
            s = list(v.segs); s[k] = El(x); return Vec(v.t, s)
        return self.S.vset(v, k, x)

    # ---- callee contracts (the callee's own task verifies its body)
    def fn(self, name, t, concf, *args, exc=None):
        """result of a contracted callee: concretely concf(x, *args); symbolically an uninterpreted
        function of its arguments, throwing exc or returning"""
        if self.conc:
            r = concf(self, *args)
            if hasattr(r, '__next__'):
                try:
                    while True: next(r)
                except StopIteration as s_: r = s_.value
            return r
        for k, e in enumerate([exc] if isinstance(exc, str) else exc or ()):
            if self.c.branch(uf('c_%s.throws%s' % (name, k or ''), 'bool', self.S.flat(args))): self.throw(e)
        return self.S.ufv('c_' + name, t, *args) if t is not None else None

    def stable_sort(self, v, key):
        if self.conc: return Vec(v.t, sorted(v.segs, key=lambda e: key(e.v)))
        return self.S.ufv('stable_sort', ('vec', v.t), v)

    # ---- numbers
    def real(self, v):
        if self.conc: return float(v)
        if isinstance(v, int): return Fraction(v)
        if isinstance(v, float): return Fraction(repr(v))
        if is_term(v) and z3.is_int(v): return z3.ToReal(v)
        return v
    def rdiv(self, a, b):
        if self.conc: return float(a) / float(b)
        r = S.rdiv(self.real(a), self.real(b))
        return Fraction(r) if isinstance(r, int) else r
    def radd(self, a, b): return a + b if self.conc else self.real(S.add(self.real(a), self.real(b)))
    def rsub(self, a, b): return a - b if self.conc else self.real(S.sub(self.real(a), self.real(b)))
    def rmul(self, a, b): return a * b if self.conc else self.real(S.mul(self.real(a), self.real(b)))
    def rint(self, a):
        if self.conc: return round(a)
        return S.rrint(a)
    def rtrunc(self, a):
        return int(a) if self.conc else S.rtrunc(a)
    def imin(self, a, b):
        if not is_term(a) and not is_term(b): return min(a, b)
        c = lt(b, a); d = self.c.decide(c)
        if d is not None: return b if d else a
        return z3.If(c, b, a)
    def imax(self, a, b):
        if not is_term(a) and not is_term(b): return max(a, b)
        c = lt(a, b); d = self.c.decide(c)
        if d is not None: return b if d else a
        return z3.If(c, b, a)
    def byte(self, v, k):
        """byte k of a two's complement number"""
        if isinstance(v, int): return (v >> (8 * k)) & 255
        return S._simp((v / (1 << (8 * k)) if k else v) % 256)
    def add(self, a, b): return S.add(a, b)
    def sub(self, a, b): return S.sub(a, b)
    def mul(self, a, b): return S.mul(a, b)
    def div(self, a, b): return S.tdiv(a, b)
    def mod(self, a, b): return S.tmod(a, b)

    # ---- decisions
    def eq(self, a, b):
        if self.conc: return ceq(a, b)
        return self.S.eq(a, b)
    def lt(self, a, b): return S.lt(a, b) if not self.conc else a < b
    def le(self, a, b): return S.le(a, b) if not self.conc else a <= b
    def b(self, f):
        if self.conc: return bool(f)
        return self.c.branch(f)
    def is_(self, a, b): return self.b(self.eq(a, b))
    def is_lt(self, a, b): return self.b(self.lt(a, b))
    def is_le(self, a, b): return self.b(self.le(a, b))
    def has(self, o): return self.b(o.has)
    def assume(self, f, why=None):
        """a precondition of the contract"""
        if self.conc:
            if not f: raise OutOfScope(why)
            return
        self.c.assume(f) if not isinstance(f, bool) else (None if f else (_ for _ in ()).throw(PathEnd()))



def utf8_enc(c):
    if c < 0x80: return [c]
    if c < 0x800: return [0xc0 | c >> 6, 0x80 | c & 63]
    if 0xd800 <= c < 0xe000 or c > 0x10ffff: return []
    if c < 0x10000: return [0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63]
    return [0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63]
def utf8_dec(s):
    """only meaningful for valid UTF-8 (callers check)"""
    return bytes(ord(c) for c in s).decode('utf-8')

def ceq(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))
    if isinstance(a, Rec): return set(a.f) == set(b.f) and all(ceq(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Opt): return a.has == b.has and (not a.has or ceq(a.val, b.val))
    if isinstance(a, Vec): return len(a.segs) == len(b.segs) and all(ceq(x.v, y.v) for x, y in zip(a.segs, b.segs))
    if isinstance(a, MapV): return {k: v for k, v in a.chain} == {k: v for k, v in b.chain}
    return a == b

_lemmas = {}
def lemma(c, name, build, *args):
    """a general fact: proved once for arbitrary arguments, then used for these"""
    args = [lift(a) for a in args]
    key = (name, build.__code__.co_code, tuple(str(a.sort()) for a in args))
    if key not in _lemmas:
        vs = [z3.Const('lemma.%d' % k, a.sort()) for k, a in enumerate(args)]
        _lemmas[key] = c.general(build(*vs))
    c.stats.ob('lemma: ' + name, _lemmas[key])
    if _lemmas[key]: c.assume(lift(build(*args)))
