"""Symbolic execution of the clang AST of the real code (no rewriting, no look-alike)."""
import z3
from fractions import Fraction
from .sym import *
from . import sym as S

class BreakX(Exception): pass
class ContinueX(Exception): pass
class ReturnX(Exception):
    def __init__(self, v): self.v = v
class CppThrow(Exception):
    def __init__(self, t, args=(), loc=''): self.t = t; self.args_ = args; self.loc = loc
class Restart(Exception): pass

class Uninit:
    def __repr__(self): return 'UNINIT'
UNINIT = Uninit()

STD_BASES = {'boost::bad_lexical_cast': ['std::bad_cast'], 'std::bad_cast': ['std::exception'],
             'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
             'std::out_of_range': ['std::logic_error'], 'std::invalid_argument': ['std::logic_error'],
             'boost::bad_optional_access': ['std::logic_error']}

def derives(t, base):
    if t == base: return True
    for b in list(BASES.get(t, [])) + STD_BASES.get(t, []):
        if derives(b, base): return True
    return False

def is_exc(t): return derives(t, 'std::exception')

class DB:
    """All extracted functions of the translation units of one proof task."""
    def __init__(self):
        self.fn = {}; self.byq = {}; self.globals = {}; self.virt = {}; self.derived = {}
    def load(self, d):
        for e in d['enums']: ENUMS.setdefault(e['name'], e['values'])
        for r in d['records']:
            if r['name'] not in RECORDS or True:
                RECORDS[r['name']] = [(f['name'], strip_ref(ty(f['t']))) for f in r['fields']]
                BASES[r['name']] = [b for b in r['bases']]
                for b in r['bases']: self.derived.setdefault(b, set()).add(r['name'])
            for v in r['virtuals']: self.virt[v['key']] = v
        S._tcache.clear()
        for r in d['records']:
            RECORDS[r['name']] = [(f['name'], strip_ref(ty(f['t']))) for f in r['fields']]
        for f in d['functions']:
            if f.get('implicit'): continue
            self.fn.setdefault(f['key'], f)
            l = self.byq.setdefault(f['q'], [])
            if not any(g['key'] == f['key'] for g in l): l.append(f)
        for g in d['globals']:
            self.globals.setdefault(g['q'], g)

def strip_ref(t):
    return ('ptr', t[1]) if t[0] == 'ref' else t

class Frame:
    __slots__ = ('env', 'this', 'name', 'path', 'roots')
    def __init__(self, name, path): self.env = {}; self.this = None; self.name = name; self.path = path; self.roots = []

class Interp:
    def __init__(self, db, ctx, sym, prod=None):
        from . import lib
        self.db, self.c, self.S, self.prod = db, ctx, sym, prod
        self.lib = lib.Lib(self)
        self.hooks = {}            # q-name -> fn(interp, this, args(values/LVs), node) for modular calls
        self.frames = []; self.groots = {}; self.serial = 0; self.heap = []
        self.depth = 0; self.names = {}
        self.force_cut = set()
        self.unroll_limit = 3000
        self.fp = 'exact'
        self.int_ob = True

    # ------------------------------------------------------------ memory
    def new_root(self, name, t, v, heap=False):
        self.serial += 1
        r = Root(name, t, v, self.serial)
        if heap: self.heap.append(r)
        elif self.frames: self.frames[-1].roots.append(r)
        return r

    def live_roots(self):
        out = list(self.groots.values()) + list(self.heap)
        for f in self.frames: out += f.roots
        return out

    def load(self, lv):
        if not isinstance(lv, LV): return lv
        v = lv.root.v
        for p in lv.path: v = self.step(v, p)
        if v is UNINIT:
            self.c.oblige('initialised:' + lv.root.name.split('/')[-1], False, '')
        return v

    def step(self, v, p):
        k = p[0]
        if k == 'f':
            if not isinstance(v, Rec): raise ToolLimit('field %s of %r' % (p[1], v))
            if p[1] not in v.f: raise ToolLimit('no field %s' % p[1])
            return v.f[p[1]]
        if k == 'v':
            return v.val
        if k == 'i': return self.S.vget(v, p[1])
        if k == 'k':
            h, x = self.S.map_find(v, p[1])
            if not h: raise ToolLimit('map lvalue vanished')
            return x
        if k == 'c': return self.lib.char_at(v, p[1])
        if k == 'b': return self.lib.buf_read(v, p[1])
        raise ToolLimit('path %r' % (p,))

    def store(self, lv, val):
        if not isinstance(lv, LV): raise ToolLimit('store to non-lvalue')
        if isinstance(val, LV): val = self.load(val)
        lv.root.v = self._put(lv.root.v, lv.path, val)

    def _put(self, v, path, val):
        if not path: return val
        p, rest = path[0], path[1:]
        k = p[0]
        if k == 'f':
            return v.with_(p[1], self._put(v.f.get(p[1]), rest, val))
        if k == 'v': return Opt(v.t, v.has, self._put(v.val, rest, val))
        if k == 'i':
            old = self.S.vget(v, p[1]) if rest else None
            return self.S.vset(v, p[1], self._put(old, rest, val))
        if k == 'k':
            old = self.step(v, p) if rest else None
            return self.S.map_put(v, p[1], self._put(old, rest, val))
        if k == 'b': return Buf(v.size, v.writes + ((p[1], 1, ('byte', val)),))
        if k == 'c': return self.lib.str_set(v, p[1], val)
        raise ToolLimit('store path %r' % (p,))

    # ------------------------------------------------------------ functions
    def loc(self, n): return n.get('l', '')

    def find(self, q, pred=None):
        l = [f for f in self.db.byq.get(q, []) if pred is None or pred(f)]
        if len(l) != 1: raise ToolLimit('anchor function %s: %d definitions found' % (q, len(l)))
        return l[0]

    def call_def(self, f, this, args):
        """Run a repo function body.  args: LV for references, values otherwise."""
        if self.depth > 60: raise ToolLimit('recursion')
        self.depth += 1
        self.c.stats.inlined.add(f['key'])
        par = self.frames[-1].path if self.frames else ''
        fr = Frame(f['key'], par + '/' + f['q'].split('::')[-1] + '@' + str(f['id']))
        fr.this = this
        self.frames.append(fr)
        try:
            for p, a in zip(f['params'], args):
                self.bind(fr, p, a)
            if f.get('inits') is not None: self.run_inits(f, this)
            try:
                self.st(f['body'])
            except ReturnX as r:
                return r.v
            return None
        finally:
            self.frames.pop(); self.depth -= 1

    def bind(self, fr, p, a):
        t = ty(p['t'])
        nm = fr.path + '/' + (p['name'] or '_') + '#' + str(p['id'])
        if t[0] == 'ref':
            if not isinstance(a, LV): a = LV(self.new_root(nm, t[1], a))
            fr.env[p['id']] = a
        else:
            if isinstance(a, LV): a = self.load(a)
            a = self.coerce(a, t)
            fr.env[p['id']] = LV(self.new_root(nm, t, a))

    def coerce(self, v, t):
        if t[0] == 'real' and isinstance(v, int) and not isinstance(v, bool): return Fraction(v)
        return v

    def run_inits(self, f, this):
        for i in f['inits']:
            if i.get('member'):
                lv = this.sub(('f', i['member']))
                self.store(lv, self.init_val(i['e'], self.field_type(f['cls'], i['member'])))
            elif i.get('base'):
                e = i['e']
                if e and e.get('k') == 'Construct' and e['fn'].get('repo') and not e['fn'].get('implicit'):
                    d = self.db.fn.get(e['fn']['key'])
                    if d: self.call_def(d, this, self.args(e['fn'], e['args']))
                elif e and e.get('k') == 'Construct' and e['fn'].get('implicit'):
                    # implicit base constructor: default-initialise its fields
                    bt = ty(e['t'])
                    if bt[0] == 'rec' and bt[1] in RECORDS:
                        v = self.default_rec(bt[1])
                        for k, x in v.f.items():
                            self.store(this.sub(('f', k)), x)
            elif i.get('delegating'):
                e = i['e']; d = self.db.fn.get(e['fn']['key'])
                if not d: raise ToolLimit('delegating ctor')
                self.call_def(d, this, self.args(e['fn'], e['args']))

    def field_type(self, cls, m):
        for n, t in all_fields(ty(cls)[1] if ty(cls)[0] == 'rec' else cls):
            if n == m: return t
        return ('void',)

    def init_val(self, e, t):
        if e is None: return self.default(t)
        v = self.ev(e)
        if strip(t)[0] == 'ptr' and isinstance(v, LV): return Ptr(lv=v)   # reference member
        if isinstance(v, LV): v = self.load(v)
        return self.coerce(v, t)

    def default(self, t):
        t = strip(t); k = t[0]
        if k == 'str' or k == 'wstr': return ''
        if k == 'opt': return Opt(t[1], False, None)
        if k == 'vec': return Vec(t[1])
        if k == 'map': return MapV(t[1], t[2])
        if k == 'arr':
            if t[1] == ('char',): return Buf(t[2])
            if t[1][0] == 'int': return Vec(t[1], [El(UNINIT)] * t[2])
            return Vec(t[1], [El(self.default(t[1])) for _ in range(t[2])])
        if k == 'rec':
            if t[1] in RECORDS: return self.default_rec(t[1])
            return self.lib.default_rec(t)
        return UNINIT

    def default_rec(self, name):
        """default-initialise via the repo constructor when one exists"""
        for f in self.db.fn.values():
            if f.get('defctor') and f.get('cls') == name and f.get('inits') is not None:
                return self.construct(name, f, [])
        d = {}
        for n, t in all_fields(name): d[n] = self.default(t)
        return Rec(name, d)

    def construct(self, name, f, args):
        r = self.new_root((self.frames[-1].path if self.frames else '') + '/new ' + name, ('rec', name), Rec(name, {n: UNINIT for n, _ in all_fields(name)}))
        if not self.frames: self.groots[r.name] = r
        self.call_def(f, LV(r), args)
        if not self.frames: del self.groots[r.name]
        if self.frames and r in self.frames[-1].roots: self.frames[-1].roots.remove(r)
        return r.v

    def args(self, fn, nodes):
        """Evaluate call arguments according to parameter types."""
        out = []
        pts = fn.get('pt', [])
        for i, a in enumerate(nodes):
            v = self.ev(a)
            t = ty(pts[i]) if i < len(pts) else None
            if (t is None or t[0] != 'ref') and isinstance(v, LV): v = self.load(v)
            out.append(v)
        return out

    def env(self, i):
        for_frame = self.frames[-1].env
        if i in for_frame: return for_frame[i]
        return None

    # ------------------------------------------------------------ expressions
    def rv(self, e):
        v = self.ev(e)
        return self.load(v) if isinstance(v, LV) else v

    def cond(self, e):
        v = self.rv(e)
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, NullP): return False
        if isinstance(v, Ptr): return True
        if isinstance(v, LV): return True
        if isinstance(v, CharV): return self.c.branch(v.code != 0)
        if is_term(v):
            if z3.is_bool(v): return self.c.branch(v)
            return self.c.branch(v != 0)
        if isinstance(v, Opt): return self.c.branch(v.has)
        raise ToolLimit('truth of %r' % (v,))

    def ev(self, e):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise ToolLimit('expression %s %s at %s' % (e['k'], e.get('cls', ''), e.get('l')))
        return m(e)

    def e_Unsupported(self, e): raise ToolLimit('unsupported %s at %s' % (e.get('cls'), e.get('l')))

    def e_Temp(self, e): return self.ev(e['e'])
    def e_Int(self, e): return int(e['v'])
    def e_Bool(self, e): return bool(e['v'])
    def e_Float(self, e):
        # decimal literal as an exact rational when short; doubles elsewhere
        return Fraction(e['v']) if len(e['v']) < 12 else Fraction(repr(float(e['v'])))
    def e_Str(self, e):
        return e['v']
    def e_Null(self, e): return NULL
    def e_This(self, e): return Ptr(lv=self.frames[-1].this)
    def e_FnRef(self, e): return ('fnref', e['fn'])
    def e_ValueInit(self, e):
        t = ty(e['t'])
        if t[0] in ('int', 'enum', 'char'): return 0
        if t[0] == 'bool': return False
        if t[0] == 'real': return Fraction(0)
        if t[0] == 'ptr': return NULL
        return self.default(t)

    def e_Ref(self, e):
        if e.get('cv') is not None and e.get('global'): return int(e['cv'])
        for fr in (self.frames[-1],):
            if e['id'] in fr.env: return fr.env[e['id']]
        if e.get('global'):
            return self.global_lv(e['global'], e)
        raise ToolLimit('unbound %s at %s' % (e['name'], e.get('l')))

    def global_lv(self, q, e):
        r = self.groots.get(q)
        if r is None:
            r = self.lib.global_value(q, e)
            if r is not None: return r
            g = self.db.globals.get(q)
            t = ty(g['t'] if g else e['t'])
            r = Root('::' + q, t, None, 0)
            self.groots[q] = r
            if g and g.get('init'):
                fr = Frame('global', '::'); self.frames.append(fr)
                try: r.v = self.init_val(g['init'], t)
                finally: self.frames.pop()
            else: r.v = self.default(t)
        return LV(r)

    def e_Member(self, e):
        b = self.ev(e['base'])
        if e.get('arrow'):
            b = self.deref(b, e)
        if isinstance(b, LV):
            lv = b.sub(('f', e['name']))
            if e.get('isref'):
                p = self.load(lv)
                return self.deref(p, e)
            return lv
        if isinstance(b, Rec):
            v = b.f.get(e['name'])
            if v is None and e['name'] not in b.f: raise ToolLimit('member ' + e['name'])
            return v
        h = self.lib.member(b, e)
        return h

    def deref(self, p, e):
        if isinstance(p, LV):
            p = self.load(p)
        if isinstance(p, Ptr):
            if p.lv is not None:
                cur = self.load_nocheck(p.lv) if isinstance(p.lv, LV) else None
                if isinstance(cur, Buf) and p.sv is None:
                    self.c.oblige('buffer-bounds@' + self.fname(), conj(le(0, p.off), lt(p.off, cur.size)), self.loc(e))
                    return p.lv.sub(('b', p.off))
                if p.off == 0 and p.sv is None: return p.lv
                return p.lv.sub(('b', p.off))
            return self.lib.strptr_char(p, e)
        if isinstance(p, NullP):
            self.c.oblige('null-dereference@' + self.fname(), False, self.loc(e)); raise PathEnd()
        return self.lib.deref(p, e)

    def fname(self):
        # name of the repo function we are in (stable under line changes)
        for fr in reversed(self.frames):
            return fr.name.split('(')[0]
        return ''

    def e_Cast(self, e):
        ck = e['ck']
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived'):
            return self.ev(e['e'])
        if ck == 'LValueToRValue': return self.rv(e['e'])
        if ck == 'ToVoid': self.ev(e['e']); return None
        if ck == 'ArrayToPointerDecay':
            v = self.ev(e['e'])
            if isinstance(v, LV): return Ptr(lv=v, off=0) if not isinstance(v.root.v, str) else Ptr(lv=v)
            return v      # string literal: represented by its contents
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return self.ev(e['e'])
        if ck == 'NullToPointer': return NULL
        if ck == 'BitCast': return self.rv(e['e'])
        v = self.rv(e['e'])
        st, dt = ty(e['e']['t']), ty(e['t'])
        if ck == 'IntegralCast': return self.int_cast(v, st, dt, e)
        if ck == 'IntegralToFloating':
            v = S._num(v)
            return self.fround(zr(v), e) if False else (Fraction(v) if isinstance(v, int) else z3.ToReal(v))
        if ck == 'FloatingCast':
            return v
        if ck == 'FloatingToIntegral':
            r = rtrunc(v)
            lo, hi = int_range(dt)
            self.c.oblige('float-to-int-range@' + self.fname(), conj(le(lo, r), le(r, hi)), self.loc(e))
            return r
        if ck == 'IntegralToBoolean': return (v != 0) if not isinstance(v, CharV) else v.code != 0
        if ck == 'FloatingToBoolean': return (v != 0)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'): return not isinstance(v, NullP)
        raise ToolLimit('cast %s at %s' % (ck, e.get('l')))

    def int_cast(self, v, st, dt, e):
        if st == ('int', 8, False) and dt[0] != 'char':
            if isinstance(v, CharV): v = v.code
            elif isinstance(v, int): v = v % 256
        if dt[0] == 'char':
            if isinstance(v, CharV): return v
            if isinstance(v, int): return ((v + 128) & 255) - 128
            return CharV(_modn(v, 256), None)
        if isinstance(v, CharV):
            if dt == ('int', 8, False): return v.code
            v2 = z3.If(v.code < 128, v.code, v.code - 256)
            if dt[0] == 'int' and not dt[2] and dt[1] > 8:
                v2 = z3.If(v.code < 128, v.code, v.code - 256 + (1 << dt[1]))
            return v2
        if isinstance(v, bool): return int(v)
        if is_term(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if dt[0] == 'enum' : return v
        lo, hi = int_range(dt)
        if isinstance(v, int):
            n = hi - lo + 1
            return (v - lo) % n + lo
        try:
            sl, sh = int_range(st)
            if sl >= lo and sh <= hi: return v
        except ToolLimit: pass
        if self.c.prove(z3.And(v >= lo, v <= hi)): return v
        n = hi - lo + 1
        return _modn(v, n) if lo == 0 else (_modn(v - lo, n) + lo)

    def e_Unary(self, e):
        op = e['op']
        if op == '*':
            p = self.rv(e['e'])
            return self.deref(p, e)
        if op == '&':
            if e['e']['k'] == 'Ref' and e['e'].get('field'): return ('memptr', e['e']['name'])
            v = self.ev(e['e'])
            if isinstance(v, LV):
                if v.path and v.path[-1][0] == 'b': return Ptr(lv=LV(v.root, v.path[:-1]), off=v.path[-1][1])
                return Ptr(lv=v)
            if isinstance(v, tuple) and v[0] == 'fnref': return v
            return Ptr(lv=LV(self.new_root('tmp', ty(e['e']['t']), v)))
        if op == '!':
            v = self.rv(e['e'])
            if isinstance(v, bool): return not v
            if is_term(v) and z3.is_bool(v): return z3.Not(v)
            return not self.truth(v)
        if op in ('++', '--'):
            lv = self.ev(e['e'])
            old = self.load(lv)
            if isinstance(old, Ptr): new = Ptr(old.lv, add(old.off, 1 if op == '++' else -1), old.sv)
            elif isinstance(old, tuple) and old[0] == 'iter': new = self.lib.iter_add(old, 1 if op == '++' else -1, e)
            else:
                new = self.arith(op[0], S._num(old), 1, ty(e['t']), e)
            self.store(lv, new)
            return old if e.get('post') else lv
        v = S._num(self.rv(e['e']))
        if op == '-':
            r = sub(0, v)
            return self.checked(r, ty(e['t']), e, 'neg') if ty(e['t'])[0] == 'int' else r
        if op == '+': return v
        if op == '~' and isinstance(v, int): return ~v
        raise ToolLimit('unary ' + op)

    def checked(self, r, t, e, op, small=False):
        lo, hi = int_range(t)
        if isinstance(r, int):
            if lo <= r <= hi: return r
            if t[0] == 'int' and t[2]:
                self.c.oblige('signed-overflow@' + self.fname(), False, self.loc(e)); raise PathEnd()
            return r % (hi + 1)
        if t[0] == 'int' and not t[2]:
            if self.c.prove(z3.And(r >= lo, r <= hi)): return r
            return _modn(r, hi + 1)
        if small:
            self.c.stats.assumed.add('counters incremented by a constant do not reach 2^31 (inputs below 2^31 items)')
            return r
        if self.int_ob:
            self.c.oblige('no-signed-overflow@' + self.fname(), z3.And(r >= lo, r <= hi), self.loc(e))
        return r

    def arith(self, op, a, b, t, e):
        t = strip(t)
        if t[0] == 'real':
            if op == '+': r = add(a, b)
            elif op == '-': r = sub(a, b)
            elif op == '*': r = mul(a, b)
            elif op == '/':
                if isinstance(b, (int, Fraction)) and b == 0: raise ToolLimit('float division by literal zero')
                if is_term(b):
                    # IEEE division by zero is defined; contracts state b != 0 where it matters
                    if self.c.branch(b == 0): raise CppThrow('#inf', (), self.loc(e))
                r = rdiv(a, b)
            else: raise ToolLimit('float op ' + op)
            if isinstance(r, int): r = Fraction(r)
            return self.fround(r, e)
        if t[0] == 'enum': t = T_INT
        small = (isinstance(a, int) and abs(a) <= 64) or (isinstance(b, int) and abs(b) <= 64)
        if op == '+': return self.checked(add(a, b), t, e, op, small)
        if op == '-': return self.checked(sub(a, b), t, e, op, small)
        if op == '*': return self.checked(mul(a, b), t, e, op)
        if op in ('/', '%'):
            self.c.oblige('division-by-zero@' + self.fname(), self.ne0(b), self.loc(e))
            if isinstance(b, int) and b == 0: raise PathEnd()
            if t[2] and not (isinstance(b, int) and b != -1) and not (isinstance(a, int) and a > -(1 << 31)):
                lo = int_range(t)[0]
                self.c.oblige('no-signed-overflow@' + self.fname(), neg(conj(self.S.eq(a, lo), self.S.eq(b, -1))), self.loc(e))
            if op == '/': return tdiv(a, b)
            return tmod(a, b)
        if op == '&':
            if isinstance(a, int) and isinstance(b, int): return a & b
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and b > 0:
                lowb = (b & -b).bit_length() - 1; w = b >> lowb
                if w & (w + 1) == 0:
                    x = a if lowb == 0 else a / (1 << lowb)
                    x = _modn(x, w + 1)
                    return x if lowb == 0 else mul(x, 1 << lowb)
            if isinstance(b, int) and b == 0: return 0
            raise ToolLimit('bit-and')
        if op == '|':
            if isinstance(a, int) and isinstance(b, int): return a | b
            if isinstance(a, int) and a == 0: return b
            if isinstance(b, int) and b == 0: return a
            return self.S.ufv('bitor', t, a, b)
        if op == '>>':
            if not isinstance(b, int): raise ToolLimit('shift')
            if isinstance(a, int): return a >> b
            return a if b == 0 else S._simp(a / (1 << b))
        if op == '<<':
            if not isinstance(b, int): raise ToolLimit('shift')
            self.c.oblige('shift-range@' + self.fname(), 0 <= b < t[1], self.loc(e))
            return self.checked(mul(a, 1 << b), t, e, op)
        if op == '^' and isinstance(a, int) and isinstance(b, int): return a ^ b
        raise ToolLimit('op ' + op)

    def ne0(self, b): return (b != 0)

    def fround(self, r, e):
        """double rounding of one operation"""
        if self.fp == 'exact' or not is_term(r): return r
        r = z3.simplify(r)
        if not is_term(unlift(r)) : return unlift(r)
        n = _as_int(r)
        if n is not None and self.c.prove(z3.And(n < (1 << 53), n > -(1 << 53)), quick=False):
            return r          # integer arithmetic below 2^53 is exact
        y = z3.FreshReal('fl') if False else z3.Real(self.c.fresh_name('fl'))
        eps = z3.RealVal(Fraction(1, 1 << 53).__str__())
        ar = z3.If(r >= 0, r, -r)
        self.c.assume(z3.And(y - r <= ar * eps, r - y <= ar * eps))
        return self.lib.fround_axioms(y, r)

    def e_Binary(self, e):
        op = e['op']
        if op in ('.*', '->*'):
            b = self.ev(e['a'])
            if op == '->*': b = self.deref(b, e)
            m = self.rv(e['b'])
            if not (isinstance(m, tuple) and m[0] == 'memptr'): raise ToolLimit('pointer to member at %s' % e.get('l'))
            if isinstance(b, LV): return b.sub(('f', m[1]))
            if isinstance(b, Rec) and m[1] in b.f: return b.f[m[1]]
            raise ToolLimit('pointer to member of %r' % (type(b),))
        if op == '=':
            b = self.ev(e['b'])
            if isinstance(b, LV): b = self.load(b)
            lv = self.ev(e['a'])
            t = ty(e['a']['t'])
            if isinstance(lv, LV): self.store(lv, self.coerce(b, t)); return lv
            raise ToolLimit('assignment target')
        if op == ',':
            self.ev(e['a']); return self.ev(e['b'])
        if op == '&&':
            if not self.cond(e['a']): return False
            return self.boolv(self.rv(e['b']))
        if op == '||':
            if self.cond(e['a']): return True
            return self.boolv(self.rv(e['b']))
        a, b = self.rv(e['a']), self.rv(e['b'])
        return self.binop(op, a, b, e, ty(e['a']['t']))

    def boolv(self, v):
        if isinstance(v, bool) or (is_term(v) and z3.is_bool(v)): return v
        return self.truth(v)

    def binop(self, op, a, b, e, at=None):
        if op in ('==', '!='):
            if isinstance(a, NullP) or isinstance(b, NullP):
                r = isinstance(a, NullP) and isinstance(b, NullP)
            elif isinstance(a, Ptr) and isinstance(b, Ptr): r = self.S.eq(a, b)
            else: r = self.S.eq(a, b)
            return r if op == '==' else neg(r)
        if op in ('<', '<=', '>', '>='):
            if isinstance(a, Ptr) and isinstance(b, Ptr): a, b = a.off, b.off
            if op == '<': return lt(a, b)
            if op == '<=': return le(a, b)
            if op == '>': return lt(b, a)
            return le(b, a)
        if isinstance(a, Ptr) and op in ('+', '-') and not isinstance(b, Ptr):
            return Ptr(a.lv, add(a.off, b) if op == '+' else sub(a.off, b), a.sv)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-': return sub(a.off, b.off)
        return self.arith(op, S._num(a), S._num(b), ty(e['t']), e)

    def e_CompoundAssign(self, e):
        b = self.rv(e['b'])
        lv = self.ev(e['a'])
        a = self.load(lv)
        if isinstance(a, Ptr): r = self.binop(e['op'], a, b, e)
        else:
            ct = ty(e['ct'])
            if ct[0] == 'real': a = self.to_real(a)
            r = self.arith(e['op'], S._num(a), S._num(b), ct, e)
            dt = ty(e['a']['t'])
            if dt[0] in ('int', 'char') and ct[0] == 'int' and dt != ct: r = self.int_cast(r, ct, dt, e)
            elif dt[0] == 'int' and ct[0] == 'real': r = rtrunc(r)
        self.store(lv, r)
        return lv

    def to_real(self, v):
        if isinstance(v, int): return Fraction(v)
        if is_term(v) and z3.is_int(v): return z3.ToReal(v)
        return v

    def e_Cond(self, e):
        if self.cond(e['c']): v = self.ev(e['a'])
        else: v = self.ev(e['b'])
        return v

    def e_Index(self, e):
        a, i = self.rv(e['a']), S._num(self.rv(e['b']))
        if isinstance(a, Ptr) and a.sv is None:
            tgt = a.lv
            cur = self.load_nocheck(tgt)
            if isinstance(cur, Buf):
                idx = add(a.off, i)
                self.c.oblige('buffer-bounds@' + self.fname(), conj(le(0, idx), lt(idx, cur.size)), self.loc(e))
                return tgt.sub(('b', idx))
            if isinstance(cur, Vec):
                idx = add(a.off, i)
                self.c.oblige('array-bounds@' + self.fname(), conj(le(0, idx), lt(idx, self.S.vlen(cur))), self.loc(e))
                return tgt.sub(('i', idx))
            return self.lib.ptr_index(a, i, e)
        if isinstance(a, Ptr): return self.lib.strptr_char(Ptr(a.lv, add(a.off, i), a.sv), e)
        if isinstance(a, str): return self.lib.char_at(a, i)
        return self.lib.ptr_index(a, i, e)

    def load_nocheck(self, lv):
        v = lv.root.v
        for p in lv.path: v = self.step(v, p)
        return v

    def e_Lambda(self, e):
        env = {}
        fr = self.frames[-1]
        this = None
        for c in e['captures']:
            if c.get('this'): this = fr.this; continue
            i = c['id']
            if c.get('byref'): env[i] = fr.env[i]
            else:
                v = self.rv(c['init']) if c.get('init') else self.load(fr.env[i])
                env[i] = ('byval', v)
        return Closure(e, env, this)

    def call_closure(self, cl, args):
        fr = Frame('lambda', self.frames[-1].path + '/lambda@' + str(cl.node['id']))
        # obligations inside a lambda are attributed to the enclosing function
        fr.name = self.frames[-1].name
        fr.this = cl.this
        self.frames.append(fr)
        try:
            for i, v in cl.env.items():
                if isinstance(v, tuple) and v[0] == 'byval': fr.env[i] = LV(self.new_root(fr.path + '/cap#%d' % i, None, v[1]))
                else: fr.env[i] = v
            for p, a in zip(cl.node['params'], args): self.bind(fr, p, a)
            try: self.st(cl.node['body'])
            except ReturnX as r: return r.v
            return None
        finally: self.frames.pop()

    def e_Call(self, e):
        if 'fn' in e: return self.call_fn(e['fn'], None, e['args'], e)
        c = self.rv(e['callee'])
        if isinstance(c, tuple) and c[0] == 'fnref': return self.call_fn(c[1], None, e['args'], e)
        if isinstance(c, Closure): return self.call_closure(c, [self.ev(a) for a in e['args']])
        raise ToolLimit('indirect call at %s' % e.get('l'))

    def call_fn(self, fn, this, argnodes, e):
        h = self.hooks.get(fn['key']) or self.hooks.get(fn['q'])
        if h is not None:
            self.c.stats.modular.add(fn['q'])
            return h(self, this, self.args(fn, argnodes), e)
        if fn.get('repo'):
            d = self.db.fn.get(fn['key'])
            h = self.lib.repo_call(fn, this, argnodes, e)
            if h is not self.lib.NO: return h
            if d is not None: return self.call_def(d, this, self.args(fn, argnodes))
            raise ToolLimit('no body for %s' % fn['key'])
        return self.lib.call(fn, argnodes, e)

    def e_MCall(self, e):
        c = e['callee']
        if c['k'] != 'MemberFn': raise ToolLimit('member call through %s' % c['k'])
        fn = c['fn']
        b = self.ev(c['base'])
        if c.get('arrow'): b = self.deref(b, e)
        h = self.hooks.get(fn['q'])
        if h is not None:
            self.c.stats.modular.add(fn['q'])
            return h(self, b, self.args(fn, e['args']), e)
        if fn.get('repo'):
            r = self.lib.repo_call(fn, b, e['args'], e)
            if r is not self.lib.NO: return r
            d = self.db.fn.get(fn['key'])
            if fn.get('virtual') and not c.get('qualified'):
                d = self.dispatch(fn, b) or d
            if d is None: raise ToolLimit('no body for %s' % fn['key'])
            if not isinstance(b, LV): b = LV(self.new_root(self.frames[-1].path + '/tmp', ty(fn['cls']), b))
            return self.call_def(d, b, self.args(fn, e['args']))
        return self.lib.method(fn, b, e['args'], e, c)

    def dispatch(self, fn, b):
        v = self.load_nocheck(b) if isinstance(b, LV) else b
        if not isinstance(v, Rec): return None
        nm = fn['q'].split('::')[-1]
        seen = [v.t] + BASES.get(v.t, [])
        for cls in seen:
            for f in self.db.fn.values():
                if f.get('cls') == cls and f['q'].split('::')[-1] == nm and f['pt'] == fn['pt']: return f
        return None

    def e_OpCall(self, e):
        op = e['op']
        fn = e.get('fn')
        if op == '()':
            f = self.ev(e['args'][0])
            if isinstance(f, LV): f = self.load(f)
            if isinstance(f, Closure):
                return self.call_closure(f, [self.ev(a) for a in e['args'][1:]])
            return self.lib.call_object(f, e)
        if fn and fn.get('repo') and not (fn.get('implicit') and (fn.get('copyassign') or fn.get('moveassign'))):
            h = self.hooks.get(fn['key']) or self.hooks.get(fn['q'])
            member = 'cls' in fn and not fn.get('static')
            if member:
                b = self.ev(e['args'][0])
                if h: self.c.stats.modular.add(fn['q']); return h(self, b, self.args(fn, e['args'][1:]), e)
                d = self.db.fn.get(fn['key'])
                if d:
                    if not isinstance(b, LV): b = LV(self.new_root(self.frames[-1].path + '/tmp', ty(fn['cls']), b))
                    return self.call_def(d, b, self.args(fn, e['args'][1:]))
            else:
                if h: self.c.stats.modular.add(fn['q']); return h(self, None, self.args(fn, e['args']), e)
                d = self.db.fn.get(fn['key'])
                if d: return self.call_def(d, None, self.args(fn, e['args']))
            raise ToolLimit('no body for %s' % fn['key'])
        if fn and fn.get('implicit') and (fn.get('copyassign') or fn.get('moveassign')) and fn.get('repo'):
            b = self.rv(e['args'][1]); lv = self.ev(e['args'][0]); self.store(lv, b); return lv
        return self.lib.opcall(op, fn, e)

    def e_Construct(self, e):
        fn = e['fn']; t = ty(e['t'])
        if fn.get('copyctor') or fn.get('movector'):
            if t[0] != 'rec' or fn.get('implicit') or not fn.get('repo'):
                v = self.rv(e['args'][0])
                r = self.lib.copy(v, t, e)
                return r
        if t[0] == 'lambda': return self.rv(e['args'][0])
        if t[0] == 'rec' and is_exc(t[1]):
            return Rec(t[1], {'#args': [self.rv(a) for a in e['args']]})
        if fn.get('repo') or (t[0] == 'rec' and t[1] in RECORDS):
            r = self.lib.repo_call(fn, None, e['args'], e)
            if r is not self.lib.NO: return r
            d = self.db.fn.get(fn['key'])
            if d is not None and not fn.get('implicit'):
                h = self.hooks.get(fn['key']) or self.hooks.get(fn['q'])
                if h: return h(self, None, self.args(fn, e['args']), e)
                return self.construct(t[1], d, self.args(fn, e['args']))
            if fn.get('defctor'): return self.default_rec(t[1])
            if not e['args']: return self.default_rec(t[1])
            raise ToolLimit('constructor %s' % fn['key'])
        return self.lib.construct(t, fn, e)

    def e_InitList(self, e):
        t = ty(e['t'])
        if t[0] == 'rec' and t[1] in RECORDS:
            fs = all_fields(t[1])
            return Rec(t[1], {n: self.init_val(a, ft) for (n, ft), a in zip(fs, e['args'])})
        if t[0] == 'arr':
            els = [El(self.rv(a)) for a in e['args']]
            while len(els) < t[2]: els.append(El(0))
            return Vec(t[1], els)
        if len(e['args']) == 1: return self.ev(e['args'][0])
        if not e['args']: return self.e_ValueInit(e)
        raise ToolLimit('initializer list of %s' % (t,))

    def e_Throw(self, e):
        if e.get('e') is None: raise ToolLimit('rethrow')
        v = self.rv(e['e'])
        if isinstance(v, Rec): raise CppThrow(v.t, v.f.get('#args', ()), self.loc(e))
        raise CppThrow('?', (), self.loc(e))

    def e_New(self, e): return self.lib.new(e)
    def e_Delete(self, e): self.rv(e['e']); return None

    # ------------------------------------------------------------ statements
    def st(self, s):
        if s is None: return
        getattr(self, 's_' + s['k'], self.s_bad)(s)
    def s_bad(self, s): raise ToolLimit('statement %s at %s' % (s['k'], s.get('l')))
    def s_Nop(self, s): pass
    def s_Expr(self, s): self.ev(s['e'])
    def s_Block(self, s):
        for x in s['b']: self.st(x)

    def s_Decl(self, s):
        for d in s['d']: self.decl(d)

    def decl(self, d):
        fr = self.frames[-1]
        t = ty(d['t'])
        nm = fr.path + '/' + d['name'] + '#' + str(d['id'])
        if d.get('staticlocal'):
            q = 'static ' + nm
            if q not in self.groots:
                r = Root(q, t, None, 0); self.groots[q] = r
                r.v = self.init_val(d.get('init'), t)
            fr.env[d['id']] = LV(self.groots[q]); return
        if d.get('init') is None:
            v = self.default(t)
        else:
            v = self.ev(d['init'])
            if t[0] == 'ref':
                if not isinstance(v, LV): v = LV(self.new_root(nm, t[1], v))
                fr.env[d['id']] = v; return
            if isinstance(v, LV): v = self.load(v)
            if t[0] == 'arr' and t[1] == ('char',) and isinstance(v, str): v = Buf(t[2], ((0, len(v), ('str', v)),))
            v = self.coerce(v, t)
        for r in fr.roots:
            if r.name == nm: fr.roots.remove(r); break
        fr.env[d['id']] = LV(self.new_root(nm, t, v))

    def s_If(self, s):
        if s.get('init'): self.st(s['init'])
        if s.get('cv'): self.st(s['cv'])
        if self.cond(s['c']): self.st(s['a'])
        else: self.st(s['b'])

    def s_Return(self, s):
        if s['e'] is None: raise ReturnX(None)
        v = self.ev(s['e'])
        fr = self.frames[-1]
        if isinstance(v, LV):
            # keep references only for functions returning references
            f = self.db.fn.get(fr.name)
            rt = f['ret'] if f else ''
            if not rt.endswith('&'): v = self.load(v)
        raise ReturnX(v)

    def s_Break(self, s): raise BreakX()
    def s_Continue(self, s): raise ContinueX()

    def s_Switch(self, s):
        if s.get('init'): self.st(s['init'])
        v = self.rv(s['c'])
        body = s['b']['b'] if s['b']['k'] == 'Block' else [s['b']]
        # flatten nested case labels
        start = None
        items = []
        def flat(x, labels):
            while x and x['k'] in ('Case', 'Default'):
                labels.append(x); x = x['s']
            return labels, x
        for x in body:
            labels, y = flat(x, [])
            items.append((labels, y))
        default = None
        for i, (labels, y) in enumerate(items):
            for l in labels:
                if l['k'] == 'Default': default = i; continue
                cv = int(l['cv'])
                if l.get('cv2') is not None:
                    c = conj(le(cv, v), le(v, int(l['cv2'])))
                else:
                    c = self.S.eq(v, cv) if not isinstance(v, CharV) else self.S.eq(v, cv)
                if self.c.branch(c): start = i; break
            if start is not None: break
        if start is None: start = default
        if start is None: return
        try:
            for labels, y in items[start:]: self.st(y)
        except BreakX: pass

    def s_Try(self, s):
        depth = len(self.frames)
        try:
            self.st(s['b'])
        except CppThrow as t:
            for h in s['h']:
                if h['t'] is None or derives(t.t, strip(ty(h['t']))[1] if strip(ty(h['t']))[0] == 'rec' else '?'):
                    if h.get('var'):
                        self.frames[-1].env[h['var']['id']] = LV(self.new_root('exc', None, Rec(t.t, {'#args': list(t.args_)})))
                    self.st(h['b'])
                    return
            raise

    # loops
    def s_While(self, s):
        def cond():
            if s.get('cv'): self.st(s['cv'])
            return self.cond(s['c'])
        self.loop(s, cond, s['b'], None)
    def s_For(self, s):
        if s['init']: self.st(s['init'])
        self.loop(s, (lambda: self.cond(s['c'])) if s['c'] else (lambda: True), s['b'], (lambda: self.ev(s['inc'])) if s['inc'] else None)
    def s_Do(self, s):
        self.loop(s, lambda: self.cond(s['c']), s['b'], None, do=True)

    def s_RangeFor(self, s):
        r = self.ev(s['range'])
        fr = self.frames[-1]
        if not isinstance(r, LV): r = LV(self.new_root(fr.path + '/range%d' % s['id'], None, r))
        v = self.load(r)
        t = ty(s['var']['t'])
        if isinstance(v, MapV):
            if v.base is not None: raise ToolLimit('iteration over abstract map')
            els = sorted(v.chain, key=lambda kv: kv[0])
            for k, x in els:
                self.bind_var(s['var'], t, Rec('pair', {'first': k, 'second': x}))
                try: self.st(s['b'])
                except ContinueX: pass
                except BreakX: break
            return
        if isinstance(v, (str, z3.SeqRef)) and (not t[0] == 'ref' or r.root.name.endswith('/range%d' % s['id']) or 'const' in s['var']['t']):
            text = v; idx = self.new_root(fr.path + '/idx%d' % s['id'], T_SIZE, 0)
            wide = 'wchar_t' in str(s['range'].get('t')) or 'wstring' in str(s['range'].get('t'))
            def sbody():
                self.bind_var(s['var'], t[1] if t[0] == 'ref' else t, self.lib.char_at(text, idx.v, wide))
                self.st(s['b'])
            def sinc(): idx.v = add(idx.v, 1)
            n = self.lib.x.slen(text)
            self.loop(s, lambda: self.c.branch(lt(idx.v, n)), sbody, sinc); return
        if isinstance(v, (str, z3.SeqRef)):        # every character changed in place
            def each(c):
                self.bind_var(s['var'], t[1], c); self.st(s['b'])
                return fr.env[s['var']['id']]
            m = self.lib.char_map(each)
            if m is None: raise ToolLimit('range-for that changes characters at %s' % s.get('l'))
            if m != 'same': self.store(r, self.lib.x.lower(v) if m == 'lower' else self.lib.upper(v))
            return
        if not isinstance(v, Vec): raise ToolLimit('range-for over %r' % (v,))
        if self.copy_loop(s, r, v): return
        idx = self.new_root(fr.path + '/idx%d' % s['id'], T_SIZE, 0)
        def body():
            i = idx.v
            el = r.sub(('i', i))
            self.bind_var(s['var'], t, el if t[0] == 'ref' else self.load(el))
            self.st(s['b'])
        def inc(): idx.v = add(idx.v, 1)
        n = self.S.vlen(v)
        self.loop(s, lambda: self.c.branch(lt(idx.v, n)), body, inc)

    def copy_loop(self, s, r, v):
        """for (x: v) w.push_back (x)  appends v to w"""
        b = s['b']
        while b and b['k'] == 'Block' and len(b['b']) == 1: b = b['b'][0]
        if not b or b['k'] != 'Expr' or v.upds or all(isinstance(g, El) for g in v.segs): return False
        e = b['e']
        while e['k'] in ('Cast', 'Temp', 'Paren'): e = e['e']
        if e['k'] != 'MCall' or len(e['args']) != 1 or e['callee']['fn']['q'].split('::')[-1] != 'push_back': return False
        a = e['args'][0]
        while a['k'] in ('Cast', 'Temp', 'Paren'): a = a['e']
        if a['k'] != 'Ref' or a.get('id') != s['var']['id']: return False
        w = self.ev(e['callee']['base'])
        if isinstance(w, Ptr): w = w.lv
        if not isinstance(w, LV): return False
        o = self.load(w)
        if not isinstance(o, Vec) or o.upds or o.t != v.t or w.root is r.root: return False
        self.store(w, Vec(o.t, o.segs + v.segs)); return True

    def bind_var(self, d, t, v):
        fr = self.frames[-1]
        nm = fr.path + '/' + d['name'] + '#' + str(d['id'])
        for r in fr.roots:
            if r.name == nm: fr.roots.remove(r); break
        if t[0] == 'ref' and isinstance(v, LV): fr.env[d['id']] = v
        else: fr.env[d['id']] = LV(self.new_root(nm, t, v))

    def loop(self, s, cond, body, inc, do=False):
        fr = self.frames[-1]
        key = fr.path + '/loop%s' % s['id']
        run = (lambda: self.st(body)) if isinstance(body, dict) or body is None else body
        always = s['k'] != 'RangeFor' and (not s.get('c') or (s['c']['k'] == 'Bool' and s['c']['v']))
        n = 0
        if not always and key not in self.force_cut and not do:
            while True:
                r = self.probe(cond)
                if r is None:
                    if n: self.force_cut.add(key); raise Restart()
                    break
                if not r: return
                # evaluate for real (side effects)
                if not cond(): return
                try: run()
                except BreakX: return
                except ContinueX: pass
                if inc: inc()
                n += 1
                if n > self.unroll_limit: self.force_cut.add(key); raise Restart()
        elif do and key not in self.force_cut:
            while True:             # unrolled as long as the condition stays concrete
                try: run()
                except BreakX: return
                except ContinueX: pass
                r = self.probe(cond)
                if r is None or n > self.unroll_limit: self.force_cut.add(key); raise Restart()
                if not cond(): return
                n += 1
        if self.prod is None: raise ToolLimit('loop without contract')
        if do:
            holds = self.probe(cond) is True        # a condition that holds at the start holds whenever the body starts
            act = self.prod.enter(self, key)
            if holds and self.probe(cond) is not True:
                self.c.noob += 1
                try:
                    if not cond(): raise PathEnd()
                finally: self.c.noob -= 1
            try: run()
            except BreakX: self.prod.leave(self, act); return
            except ContinueX: pass
            if cond():
                self.prod.backedge(self, act); raise PathEnd()
            self.prod.leave_after(self, act); return
        act = self.prod.enter(self, key)
        if act is None:         # a loop of the code's own
            for n in range(5):
                if not always and not cond(): return
                try: run()
                except BreakX: return
                except ContinueX: pass
                if inc: inc()
            raise Mismatch(key, 'the code goes round a loop that the contract does not have')
        if always or cond():
            try:
                run()
                go = True
            except BreakX: go = False
            except ContinueX: go = True
            if go:
                if inc: inc()
                tail = 0
                while not self.prod.arrived(act) and tail < 1:
                    # the contract has left the loop: the code may have to come round again to find that out
                    tail += 1
                    if not always and not cond(): return
                    try: run()
                    except BreakX: return
                    except ContinueX: pass
                    if inc: inc()
                self.prod.backedge(self, act)
                raise PathEnd()
        self.prod.leave(self, act)

    def probe(self, cond):
        snap = [(r, r.v) for r in self.live_roots()]
        nroots = len(self.frames[-1].roots)
        self.c.probe += 1; self.c.noob += 1
        libst = self.lib.snapshot()
        try:
            return cond()
        except NeedBranch: return None
        finally:
            self.c.probe -= 1; self.c.noob -= 1
            for r, v in snap: r.v = v
            del self.frames[-1].roots[nroots:]
            self.lib.restore(libst)

def _modn(v, n):
    if isinstance(v, int): return v % n
    return S._simp(v % n)

def _as_int(r):
    """integer term equal to the real term r, if r is visibly integral"""
    if z3.is_app_of(r, z3.Z3_OP_TO_REAL): return r.arg(0)
    if z3.is_rational_value(r): return z3.IntVal(r.numerator_as_long()) if r.denominator_as_long() == 1 else None
    for k, f in ((z3.Z3_OP_MUL, lambda a, b: a * b), (z3.Z3_OP_ADD, lambda a, b: a + b), (z3.Z3_OP_SUB, lambda a, b: a - b)):
        if z3.is_app_of(r, k):
            xs = [_as_int(c) for c in r.children()]
            if any(x is None for x in xs): return None
            o = xs[0]
            for x in xs[1:]: o = f(o, x)
            return o
    return None
