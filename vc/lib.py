"""Models (assumed contracts) of the library functions the code calls.

Everything here is a trusted specification of a dependency (libstdc++, boost, libc);
each use is recorded in stats.models.  Preconditions of library functions are real
proof obligations of the calling code (index in bounds, optional set, not empty)."""
import re, z3
from fractions import Fraction
from .sym import *
from . import sym as S
from .ops import Ops, SPACE, lemma

POINT, GROUP = z3.String('lconv.decimal_point'), z3.String('lconv.thousands_sep')

class _No: pass
NOTHANDLED = _No()

def path_extension(x, s):
    n = s.split('/')[-1]
    return n[n.rfind('.'):] if '.' in n and n not in ('.', '..') else ''

def b2s(v):  # concrete signed char -> one byte string
    return chr(v & 255)

def b2c(c): return ord(c) if ord(c) < 128 else ord(c) - 256

class Lib:
    NO = NOTHANDLED
    def __init__(self, it):
        self.it = it; self.c = it.c; self.S = it.S
        self.x = Ops(it.c, it.S, it.c.stats)

    def snapshot(self): return None
    def restore(self, s): pass

    # ------------------------------------------------------------ chars / strings
    def unit(self, ch):
        """one-byte string of a char value"""
        if isinstance(ch, int): return b2s(ch)
        if isinstance(ch, CharV):
            if ch.unit is not None: return ch.unit
            return self.x.from_code(ch.code)
        if is_term(ch): return z3.StrFromCode(_mod256(ch))
        raise ToolLimit('char %r' % (ch,))

    def char_at(self, s, i, wide=False):
        if isinstance(s, str) and isinstance(i, int):
            if i >= len(s): return 0
            v = ord(s[i])
            if wide: return v
            return v if v < 128 else v - 256
        n = self.x.slen(s)
        inb = lt(i, n)
        d = self.c.decide(inb)
        if d is None and self.c.prove(inb): d = True
        if d is None:
            d = self.c.branch(inb)
        if not d: return 0
        code = self.x.code(s, i)
        if wide: return code
        if isinstance(code, int): return code if code < 128 else code - 256
        return CharV(code, self.x.ch(s, i))

    def str_set(self, s, i, ch):
        a = self.x.substr(s, 0, i); b = self.x.substr(s, add(i, 1))
        return self.x.cat(self.x.cat(a, self.unit(ch)), b)

    def buf_read(self, b, off):
        if not isinstance(b, Buf): raise ToolLimit('buffer read of %r' % (b,))
        for o, n, src in reversed(b.writes):
            if isinstance(o, int) and isinstance(n, int) and isinstance(off, int):
                if o <= off < o + n: return self._srcbyte(src, off - o)
                continue
            inr = conj(le(o, off), lt(off, add(o, n)))
            if self.c.branch(inr): return self._srcbyte(src, sub(off, o))
        self.c.oblige('initialised-buffer@' + self.it.fname(), False, '')
        raise PathEnd()

    def _srcbyte(self, src, k):
        if src[0] == 'byte': return src[1]
        if src[0] == 'fill': return src[1]
        if src[0] == 'bytes':          # as long as the write it comes from
            return CharV(lambda: self.x.code(src[1], k), self.x.ch(src[1], k)) if is_term(src[1]) or is_term(k) else b2c(src[1][k])
        if src[0] == 'str':
            return self.char_at(src[1], k)
        raise ToolLimit('buffer source')

    def known_le(self, a, b):
        d = S._simp(b - a) if is_term(a) or is_term(b) else b - a
        if isinstance(d, int): return d >= 0
        return self.c.prove(d >= 0)

    def buf_text(self, b, lo, n):
        """the bytes lo .. lo + n of a buffer as a string"""
        K = self.known_le; x = self.x
        segs = [(0, b.size, None, 0)]                   # from, to, source, where in the source `from` is
        for o, k, src in b.writes:
            if K(k, 0): continue
            e = add(o, k); new = []; done = False
            for g in segs:
                a, z = g[0], g[1]
                if K(z, o) or K(e, a): new.append(g); continue
                if not K(a, o):
                    if not K(o, a): raise ToolLimit('overlapping writes')
                elif not self.S.same(a, o): new.append((a, o, g[2], g[3]))
                if not done: new.append((o, e, src, 0)); done = True
                if not K(z, e):
                    if not K(e, z): raise ToolLimit('overlapping writes')
                    new.append((e, z, g[2], add(g[3], sub(e, a))))
            if not done: raise ToolLimit('write outside a buffer: %s %s' % (str(o)[:80], str(k)[:80]))
            segs = new
        out = ''; end = add(lo, n)
        for a, z, src, k in segs:
            if K(z, lo) or K(end, a): continue
            if not K(a, lo): f = a
            elif self.S.same(a, lo) or K(lo, a): f = a
            else: k = add(k, sub(lo, a)); f = lo
            t = z if K(z, end) else end
            m = S._simp(sub(t, f)) if is_term(sub(t, f)) else sub(t, f)
            if src is None or src[0] == 'unknown':
                self.c.oblige('initialised-buffer@' + self.it.fname(), False, ''); raise PathEnd()
            if src[0] == 'byte': p = self.unit(src[1])
            elif src[0] == 'fill': p = x.repeat(self.unit(src[1]), m)
            elif src[0] in ('str', 'bytes'):
                s = src[1]
                whole = isinstance(k, int) and k == 0 and (self.S.same(m, x.slen(s)) or K(m, x.slen(s)) and K(x.slen(s), m))
                p = s if whole else x.substr(s, k, m)
            else: raise ToolLimit('buffer source')
            out = x.cat(out, p)
        return out

    def freeze(self, p):
        """an owned block handed over to a list: from now on known by its contents"""
        b = self.it.load_nocheck(p.lv)
        if not isinstance(b, Buf) or p.off != 0 or is_term(p.off): raise ToolLimit('block of %r' % (b,))
        t = self.buf_text(b, 0, b.size)
        p.lv.root.v = Opaque('block handed over')
        return t

    def buf_str(self, b):
        """contents of a buffer as a C string: only whole-string writes"""
        if len(b.writes) == 1 and b.writes[0][0] == 0 and b.writes[0][2][0] == 'cstr': return b.writes[0][2][1]
        raise ToolLimit('buffer as C string')

    # ------------------------------------------------------------ hooks used by the interpreter
    def default_rec(self, t):
        n = t[1]
        if n.startswith('boost::match_results'): return Rec('smatch', {'ok': False, 'g': Vec(T_STR)})
        if n.startswith('std::basic_ostringstream') or n.startswith('std::basic_stringstream'):
            return Rec('ostream', {'text': '', 'w': 0, 'fill': ' '})
        if n.startswith('std::allocator'): return Opaque('allocator')
        if 'noncopyable' in n: return Rec(n, {})
        raise ToolLimit('default of %s' % n)

    def global_value(self, q, e):
        if q in ('std::cout', 'std::cerr'): return Opaque('stdout')
        if q.endswith('::npos'): return (1 << 64) - 1
        return None

    def member(self, b, e):
        if isinstance(b, Opaque): return Opaque(b.why + '.' + e['name'])
        raise ToolLimit('member %s of %r' % (e['name'], b))

    def deref(self, p, e):
        if isinstance(p, tuple) and p[0] == 'iter': return self.it_deref(p, e)
        if isinstance(p, tuple) and p[0] == 'mfind': return self.it_deref(p, e)
        raise ToolLimit('dereference of %r at %s' % (p, e.get('l')))

    def strptr_char(self, p, e):
        s = p.sv
        if isinstance(s, LV): s = self.it.load(s)
        n = self.x.slen(s)
        self.c.oblige('string-bounds@' + self.it.fname(), conj(le(0, p.off), le(p.off, n)), self.it.loc(e))
        return self.char_at(s, p.off)

    def ptr_index(self, a, i, e):
        if isinstance(a, Ptr) and a.lv is not None:
            v = self.it.load_nocheck(a.lv)
            return self.ptr_index2(a, v, i, e)
        raise ToolLimit('index of %r at %s' % (a, e.get('l')))

    def ptr_index2(self, a, v, i, e):
        idx = add(a.off, i)
        if isinstance(v, Rec) and v.t == 'bytes':      # unsigned char block of known size
            self.c.oblige('buffer-bounds@' + self.it.fname(), conj(le(0, idx), lt(idx, v.f['n'])), self.it.loc(e))
            return self.S.ufv('byteof', ('int', 8, False), v.f['id'], idx)
        raise ToolLimit('pointer index')

    def copy(self, v, t, e): return v

    def fround_axioms(self, y, r):
        """rounding maps integers |n| < 2^53 to themselves (so it is exact when r is one)"""
        n = z3.ToInt(r)
        self.c.assume(z3.Implies(z3.And(z3.ToReal(n) == r, n < (1 << 53), n > -(1 << 53)), y == r))
        self.c.stats.assumed.add('double arithmetic: every operation is the exact result with a relative error of at most 2^-53, exact on integers below 2^53 (IEEE-754 round to nearest, no overflow/underflow)')
        return y

    def compose(self, args):
        """a literal format with string or integer arguments"""
        args = [self.it.load(a) if isinstance(a, LV) else a for a in args]
        fmt = args[0]
        if not isinstance(fmt, str) or '%%' in fmt: return None
        out = ''
        for k, part in enumerate(re.split(r'(%\d)', fmt)):
            if k % 2:
                n = int(part[1])
                if n < 1 or n >= len(args): return None
                a = args[n]
                if isinstance(a, (int,)) and not isinstance(a, bool) or is_term(a) and z3.is_int(a): a = self.x.int_str(a)
                if not (isinstance(a, str) or is_term(a) and z3.is_string(a)): return None
                out = self.x.cat(out, a)
            else: out = self.x.cat(out, part)
        self.x.model('String::compose (assumed: replaces %n by the nth argument)')
        return out

    def cstr(self, v):
        """contents of a char const* argument"""
        if isinstance(v, LV): v = self.it.load(v)
        if isinstance(v, str) or (is_term(v) and z3.is_string(v)): return v
        if isinstance(v, Ptr):
            if v.sv is not None:
                s = v.sv
                if v.off == 0 and not is_term(v.off): return s
                return self.x.substr(s, v.off)
            if v.lv is not None:
                b = self.it.load_nocheck(v.lv)
                if isinstance(b, Buf) and v.off == 0: return self.buf_str(b)
                if isinstance(b, str): return b
        raise ToolLimit('C string from %r' % (v,))

    def val(self, e):
        v = self.it.ev(e)
        return self.it.load(v) if isinstance(v, LV) else v

    def sval(self, v):
        """a string value from an argument (std::string, literal, char const*)"""
        if isinstance(v, LV): v = self.it.load(v)
        if isinstance(v, str) or (is_term(v) and z3.is_string(v)): return v
        if isinstance(v, Ptr): return self.cstr(v)
        if isinstance(v, (int, CharV)): return self.unit(v)
        raise ToolLimit('string from %r' % (v,))

    # ------------------------------------------------------------ iterators
    def begin(self, lv, v): return ('iter', lv, 0)
    def end(self, lv, v):
        if isinstance(v, Vec): return ('iter', lv, self.S.vlen(v))
        if isinstance(v, MapV):
            if v.base is not None: return ('mfind', lv, None)
            return ('iter', lv, len(v.chain))
        return ('iter', lv, self.x.slen(v))

    def iter_add(self, it, n, e=None):
        if it[0] != 'iter': raise ToolLimit('advance of map find result')
        return ('iter', it[1], add(it[2], n))

    def sorted_chain(self, m):
        return sorted(m.chain, key=lambda kv: kv[0])

    def it_deref(self, p, e):
        lv = p[1]
        v = self.it.load_nocheck(lv) if isinstance(lv, LV) else lv
        if p[0] == 'mfind':
            if p[2] is None:
                self.c.oblige('end-iterator@' + self.it.fname(), False, self.it.loc(e)); raise PathEnd()
            h, x = self.S.map_find(v, p[2])
            if not h: self.c.oblige('end-iterator@' + self.it.fname(), False, self.it.loc(e)); raise PathEnd()
            return Rec('pair', {'first': p[2], 'second': x})
        if isinstance(v, Vec):
            self.c.oblige('iterator-bounds@' + self.it.fname(), conj(le(0, p[2]), lt(p[2], self.S.vlen(v))), self.it.loc(e))
            return lv.sub(('i', p[2]))
        if isinstance(v, MapV):
            if not isinstance(p[2], int): raise ToolLimit('symbolic map position')
            if p[2] >= len(v.chain):
                self.c.oblige('end-iterator@' + self.it.fname(), False, self.it.loc(e)); raise PathEnd()
            k, x = self.sorted_chain(v)[p[2]]
            return Rec('pair', {'first': k, 'second': x})
        return self.strptr_char(Ptr(None, p[2], v), e)

    def it_eq(self, a, b):
        if a[0] == 'mfind' or b[0] == 'mfind':
            if a[0] == 'mfind' and b[0] == 'mfind' and a[2] is not None and b[2] is not None: return self.S.eq(a[2], b[2])
            f, o = (a, b) if a[0] == 'mfind' and a[2] is not None else (b, a)
            if f[0] == 'mfind' and f[2] is not None:
                return False            # a found element is not end()
            return True
        return self.S.eq(a[2], b[2])

    # ------------------------------------------------------------ function objects
    def call_object(self, f, e):
        if isinstance(f, Rec) and f.t == 'linesource': return self.next_line(f)
        if isinstance(f, Opaque): raise ToolLimit('call of opaque object')
        if isinstance(f, tuple) and f[0] == 'fnref': return self.it.call_fn(f[1], None, e['args'][1:], e)
        if isinstance(f, Rec) and f.t == 'bind':
            h = self.it.hooks.get(f.f['fn']['q'])
            if h is not None:
                self.c.stats.modular.add(f.f['fn']['q'])
                return h(self.it, None, list(f.f['args']), e)
            d = self.it.db.fn.get(f.f['fn']['key'])
            return self.it.call_def(d, None, list(f.f['args']))
        if isinstance(f, Rec):
            d = self.it.db.fn.get(e['fn']['key']) if e.get('fn') else None
            if d: return self.it.call_def(d, LV(self.it.new_root('functor', ('rec', f.t), f)), self.it.args(e['fn'], e['args'][1:]))
        raise ToolLimit('call of %r' % (f,))

    def next_line(self, f):
        root = f.f['k']
        k = root.v; root.v = add(k, 1)
        return self.S.ufv('srcline', ('opt', T_STR), f.f['id'], k)

    # ------------------------------------------------------------ free functions
    def isany(self, v):
        if isinstance(v, Rec) and v.t == 'isany': return v.f['cs']
        raise ToolLimit('predicate is not is_any_of')

    def call(self, fn, nodes, e):
        q = fn['q'].split('<')[0]
        x = self.x
        ev = self.it.ev
        short = q.split('::')[-1]
        V = lambda i: self.val(nodes[i])
        if short == 'is_any_of':
            s = self.sval(V(0))
            if not isinstance(s, str): raise ToolLimit('is_any_of of symbolic set')
            return Rec('isany', {'cs': s})
        if short == 'is_space': return Rec('isany', {'cs': SPACE})
        if short in ('to_lower', 'to_upper'):
            lv = ev(nodes[0])
            s = self.it.load(lv)
            self.it.store(lv, x.lower(s) if short == 'to_lower' else self.upper(s)); return None
        if short in ('to_lower_copy',): return x.lower(V(0))
        if short in ('trim', 'trim_left', 'trim_right', 'trim_if', 'trim_left_if', 'trim_right_if'):
            lv = ev(nodes[0]); s = self.it.load(lv)
            cs = self.isany(V(1)) if short.endswith('_if') else SPACE
            side = 'left' if '_left' in short else 'right' if '_right' in short else 'both'
            self.it.store(lv, x.trim(s, cs, side)); return None
        if short in ('trim_copy', 'trim_left_copy', 'trim_right_copy', 'trim_copy_if', 'trim_left_copy_if', 'trim_right_copy_if'):
            s = V(0)
            cs = self.isany(V(1)) if short.endswith('_if') else SPACE
            side = 'left' if '_left' in short else 'right' if '_right' in short else 'both'
            return x.trim(s, cs, side)
        if short == 'split':
            lv = ev(nodes[0]); s = self.sval(V(1)); cs = self.isany(V(2))
            comp = len(nodes) > 3 and V(3) == 0 and 'token_compress' in str(fn['pt'][3])
            self.it.store(lv, x.split(s, cs, bool(comp))); return lv
        if short == 'split_regex':
            lv = ev(nodes[0]); s = self.sval(V(1)); r = V(2)
            if re.search(r'[\\\[\]().*+?{}|^$]', r.f['rx']): raise ToolLimit('split_regex pattern')
            self.it.store(lv, x.split_lit(s, r.f['rx'])); return lv
        if short == 'starts_with': return x.starts(self.sval(V(0)), self.sval(V(1)))
        if short == 'ends_with': return x.ends(self.sval(V(0)), self.sval(V(1)))
        if short == 'contains' and q.startswith('boost'): return x.contains(self.sval(V(0)), self.sval(V(1)))
        if short in ('replace_all', 'erase_all'):
            lv = ev(nodes[0]); s = self.it.load(lv)
            self.it.store(lv, self.replace(s, self.sval(V(1)), self.sval(V(2)) if short == 'replace_all' else '')); return None
        if short == 'replace_all_copy': return self.replace(self.sval(V(0)), self.sval(V(1)), self.sval(V(2)))
        if short == 'lexical_cast':
            rt = strip(ty(fn['ret']))
            v = V(0)
            if rt == T_INT and (isinstance(v, str) or (is_term(v) and z3.is_string(v))):
                ok, r = x.lexical_int(v)
                if not self.c.branch(ok):
                    from .interp import CppThrow
                    raise CppThrow('boost::bad_lexical_cast', (), self.it.loc(e))
                return r
            if rt == T_STR:
                return x.int_str(v)
            raise ToolLimit('lexical_cast')
        if short == 'atoi': return x.atoi(self.cstr(V(0)))
        if short in ('strtoll', 'strtol'):
            b = V(2)
            p = V(0)
            if b != 16: raise ToolLimit('strtoll base')
            return x.strtoll16(self.cstr(p))
        if short == 'sscanf': return self.sscanf(nodes, e)
        if short == 'snprintf': return self.snprintf(nodes, e)
        if short in ('memcpy', 'memset', 'memmove'): return self.mem(short, nodes, e)
        if short == 'localeconv':
            self.x.model('localeconv (any locale; assumed: its separators contain no digit and no sign, and its decimal point is not empty)')
            self.c.assume(z3.Length(POINT) >= 1)
            r = self.it.new_root('lconv', ('rec', 'lconv'), Rec('lconv', {'decimal_point': POINT, 'thousands_sep': GROUP}))
            return Ptr(lv=LV(r))
        if short in ('rint', 'floor', 'fabs', 'abs', 'round', 'trunc', 'lrint', 'ceil'):
            v = V(0)
            if short in ('fabs', 'abs'):
                if not is_term(v): return abs(v)
                return z3.If(v >= 0, v, -v)
            isr = ty(fn['ret'])[0] == 'real'
            if short in ('rint', 'lrint'): r = rrint(v)
            elif short == 'floor': r = rfloor(v)
            elif short == 'trunc': r = rtrunc(v)
            elif short == 'ceil': r = sub(0, rfloor(sub(0, v)))
            elif short == 'round':
                r = rfloor(add(v, Fraction(1, 2))) if not is_term(v) else z3.If(v >= 0, z3.ToInt(v + z3.RealVal('1/2')), -z3.ToInt(-v + z3.RealVal('1/2')))
            if isr: return Fraction(r) if not is_term(r) else z3.ToReal(r)
            return r
        if short in ('min', 'max') and len(nodes) == 2:
            a, b = V(0), V(1)
            if not is_term(a) and not is_term(b) and not isinstance(a, CharV): return min(a, b) if short == 'min' else max(a, b)
            c = lt(b, a) if short == 'min' else lt(a, b)
            d = self.c.decide(c)
            if d is not None: return b if d else a
            a, b = lift(a), lift(b)
            return z3.If(c, b, a)
        if short in ('move', 'forward', 'ref', 'cref', 'as_const', 'addressof', '__addressof'):
            return ev(nodes[0])
        if short == 'swap':
            a, b = ev(nodes[0]), ev(nodes[1])
            va, vb = self.it.load(a), self.it.load(b)
            self.it.store(a, vb); self.it.store(b, va); return None
        if short == 'setw': return Rec('setw', {'n': V(0)})
        if short == 'setfill':
            return Rec('setfill', {'c': self.unit(V(0))})
        if short == 'getline': return self.getline(nodes, e)
        if short == 'regex_search':
            s = self.sval(V(0)); m = ev(nodes[1]); r = V(2)
            ng = re.sub(r'\\.', '', r.f['rx']); ng = re.sub(r'\[\[:\w+:\]\]', '', ng).count('(') + 1
            ok, gs = x.regex(r.f['rx'], s, ng)
            if self.c.branch(ok):
                self.it.store(m, Rec('smatch', {'ok': True, 'g': Vec(T_STR, [El(g) for g in gs])})); return True
            self.it.store(m, Rec('smatch', {'ok': False, 'g': Vec(T_STR)})); return False
        if short == 'utf_to_utf':
            v = V(0)
            if not isinstance(v, Vec): v = self.sval(v)
            return x.utf(v, 'w2u' if ty(fn['ret']) == T_STR else 'u2w')
        if short == 'stable_sort':
            a, b = V(0), V(1)
            lv = a[1]; v = self.it.load(lv)
            self.it.store(lv, self.sort_model(v, nodes, e)); return None
        if short == 'transform':
            if len(nodes) != 4: raise ToolLimit('transform')
            a, b, d = V(0), V(1), V(2); f = V(3)
            if not all(isinstance(k, tuple) and k and k[0] == 'iter' and isinstance(k[1], LV) for k in (a, b, d)) or not a[1].root is b[1].root is d[1].root or not a[1].path == b[1].path == d[1].path: raise ToolLimit('transform')
            lv = a[1]; s = self.it.load(lv)
            if not (isinstance(s, str) or is_term(s) and z3.is_string(s)): raise ToolLimit('transform')
            if not (self.S.same(a[2], 0) and self.S.same(d[2], 0) and self.S.same(b[2], x.slen(s))): raise ToolLimit('transform of a part')
            g = None
            if isinstance(f, tuple) and f[1]['q'] == 'tolower': g = 'lower'
            elif isinstance(f, Closure): g = self.char_map(lambda c: self.it.call_closure(f, [c]))
            if g is None: raise ToolLimit('transform')
            self.it.store(lv, x.lower(s) if g == 'lower' else self.upper(s) if g == 'upper' else s); return None
        if short == 'tolower':
            v = S._num(V(0))
            if isinstance(v, int): return v + 32 if 65 <= v <= 90 else v
            return z3.If(z3.And(v >= 65, v <= 90), v + 32, v)
        if short in ('isdigit', 'isspace', 'isxdigit', 'isalpha'):
            v = S._num(V(0))
            if short == 'isdigit': return conj(le(48, v), le(v, 57))
            if short == 'isspace': return disj(self.S.eq(v, 32), conj(le(9, v), le(v, 13)))
            raise ToolLimit(short)
        if short in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'for_each'): return self.algorithm(short, nodes, e)
        if short in ('accumulate', 'max_element', 'min_element'): return self.fold(short, fn, nodes, e)
        if short in ('make_shared', 'make_unique') and ty(fn['ret'])[0] == 'ptr' and ty(fn['ret'])[1][0] == 'rec':
            cls = ty(fn['ret'])[1][1]
            return Ptr(lv=LV(self.it.new_root('%s/%s%s' % (self.it.frames[-1].path, short, e.get('l')), ('rec', cls), self.emplace(cls, nodes), heap=True)))
        if short == 'make_pair': return Rec('pair', {'first': V(0), 'second': V(1)})
        if short == 'fgets': return self.fgets(nodes, e)
        if short == 'fread':
            d, sz, n, fp = [self.val(k) for k in nodes]
            if sz != 1 or not (isinstance(fp, Ptr) and fp.lv is not None): raise ToolLimit('fread')
            return self.read_bytes(d, n, fp.lv, e)
        if short == 'strlen': return x.slen(self.cstr(V(0)))
        if short == 'to_string': return x.int_str(V(0))
        if short in ('begin', 'end') and len(nodes) == 1:
            lv = ev(nodes[0]); return getattr(self, short)(lv, self.it.load(lv))
        if short == 'bind':
            f = V(0)
            return Rec('bind', {'fn': f[1] if isinstance(f, tuple) else None, 'args': [self.val(n) for n in nodes[1:]]})
        if short == 'fopen':
            p = self.sval(V(0)); V(1)
            self.x.model('ifstream / fopen (assumed: the file exists and can be read)')
            return Ptr(lv=LV(self.it.new_root('fopen@' + self.it.fname(), None, Rec('file', {'text': x.fn('file_content', T_STR, None, p), 'pos': 0}))))
        if short == 'fclose': V(0); return 0
        if short == 'make_optional':
            v = V(0); return Opt(ty(fn['ret'])[1], True, v)
        raise ToolLimit('library function %s at %s' % (fn['q'], e.get('l')))

    def upper(self, s):
        if isinstance(s, str): return ''.join(c.upper() if 'a' <= c <= 'z' else c for c in s)
        r = uf('upper', 'str', [s]); self.c.assume(z3.Length(r) == z3.Length(s)); return r

    def char_map(self, run):
        """what run does to every character: 'lower', 'upper', 'same' or None (not known)"""
        k = z3.Int('anychar')
        def go():
            before = [(r, r.v) for r in self.it.live_roots()]
            r = run(k)
            if isinstance(r, LV): r = self.it.load(r)
            if any(r_.v is not v for r_, v in before): return None
            return r
        try: r = self.it.probe(go)
        except ToolLimit: return None
        if r is None or isinstance(r, bool): return None
        r = S._num(r)
        for n, w in (('lower', z3.If(z3.And(k >= 65, k <= 90), k + 32, k)), ('upper', z3.If(z3.And(k >= 97, k <= 122), k - 32, k)), ('same', k)):
            if self.c.general(z3.Implies(z3.And(k >= -128, k <= 127), (r - w) % 256 == 0)): return n
        return None

    def algorithm(self, short, nodes, e):
        """the algorithms that walk over a range, as the loops they are"""
        from .interp import Closure, BreakX
        a, b = self.val(nodes[0]), self.val(nodes[1]); f = self.val(nodes[2])
        if not all(isinstance(k, tuple) and k and k[0] == 'iter' for k in (a, b)) or not isinstance(a[1], LV): raise ToolLimit('algorithm ' + short)
        lv = a[1]; v = self.it.load(lv); isvec = isinstance(v, Vec)
        if not isvec and not (isinstance(v, str) or is_term(v) and z3.is_string(v)): raise ToolLimit('algorithm ' + short)
        if short not in ('find', 'count') and not isinstance(f, Closure): raise ToolLimit('algorithm %s with a function' % short)
        it = self.it; fr = it.frames[-1]
        def root(n, t, v):
            nm = '%s/%s%s' % (fr.path, n, e.get('l'))
            for r in [r for r in fr.roots if r.name == nm]: fr.roots.remove(r)
            return it.new_root(nm, t, v)
        idx = root('alg', ('int', 64, False), a[2]); cnt = root('count', ('int', 64, True), 0) if short.startswith('count') else None
        stop = []
        def test():
            x = lv.sub(('i', idx.v)) if isvec else self.char_at(it.load(lv), idx.v)
            if short in ('find', 'count'): r = self.S.eq(S._num(it.load(x)) if not isvec else it.load(x), S._num(f) if not isvec else f)
            else: r = it.call_closure(f, [x])
            if short == 'for_each': return None
            if isinstance(r, LV): r = it.load(r)
            return self.c.branch(r)
        def body():
            r = test()
            if cnt is not None:
                if r: cnt.v = add(cnt.v, 1)
            elif short != 'for_each' and r is (short not in ('all_of', 'find_if_not')): stop.append(1); raise BreakX()
        def inc(): idx.v = add(idx.v, 1)
        it.loop({'id': 'alg%s' % e.get('l'), 'k': 'RangeFor'}, lambda: self.c.branch(lt(idx.v, b[2])), body, inc)
        if short.startswith('find'): return ('iter', lv, idx.v)
        if cnt is not None: return cnt.v
        if short == 'for_each': return f
        return bool(stop) if short == 'any_of' else not stop

    def emplace(self, cls, nodes):
        """an object of the class made from these arguments"""
        if not nodes: return self.it.default_rec(cls)
        kin = lambda p, a: p == a or p[0] == a[0] == 'rec'
        at = [deref(ty(n['t'])) for n in nodes]
        fs = [f for f in self.it.db.fn.values() if f.get('cls') == cls and '::ctor' in f['key'] and not f.get('implicit') and len(f.get('pt', [])) == len(at)]
        fs = [f for f in fs if [deref(ty(p)) for p in f['pt']] == at] or [f for f in fs if all(kin(deref(ty(p)), a) for p, a in zip(f['pt'], at))]
        if len(fs) != 1: raise ToolLimit('constructor of %s' % cls)
        h = self.it.hooks.get(fs[0]['key']) or self.it.hooks.get(fs[0]['q'])
        args = self.it.args(fs[0], nodes)
        if h: self.c.stats.modular.add(fs[0]['q']); return h(self.it, None, args, None)
        return self.it.construct(cls, fs[0], args)

    def fold(self, short, fn, nodes, e):
        """accumulate, max_element and min_element, as the loops they are"""
        a, b = self.val(nodes[0]), self.val(nodes[1]); it = self.it; fr = it.frames[-1]
        if not all(isinstance(k, tuple) and k and k[0] == 'iter' for k in (a, b)) or not isinstance(a[1], LV): raise ToolLimit('algorithm ' + short)
        lv = a[1]
        if not isinstance(it.load(lv), Vec): raise ToolLimit('algorithm ' + short)
        def root(n, t, v):
            nm = '%s/%s%s' % (fr.path, n, e.get('l'))
            for r in [r for r in fr.roots if r.name == nm]: fr.roots.remove(r)
            return it.new_root(nm, t, v)
        def call(f, args):
            if not isinstance(f, Closure): raise ToolLimit('algorithm %s with a function' % short)
            r = it.call_closure(f, args)
            return it.load(r) if isinstance(r, LV) else r
        best = short != 'accumulate'
        idx = root('fold', ('int', 64, False), a[2])
        if best:
            f = self.val(nodes[2]) if len(nodes) > 2 else None
            if not self.c.branch(lt(a[2], b[2])): return ('iter', lv, b[2])
            res = root('best', ('int', 64, False), a[2]); idx.v = add(a[2], 1)
        else:
            rt = ty(fn['ret']); init = self.val(nodes[2]); f = self.val(nodes[3]) if len(nodes) > 3 else None
            res = root('acc', rt, self.sval(init) if rt == T_STR else init)
        def body():
            el = lv.sub(('i', idx.v))
            if best:
                m = lv.sub(('i', res.v)); p, q = (m, el) if short == 'max_element' else (el, m)
                r = call(f, [p, q]) if f is not None else lt(it.load(p), it.load(q))
                if self.c.branch(r): res.v = idx.v
            elif f is None:
                if rt == T_STR: res.v = self.x.cat(res.v, it.load(el))
                elif rt[0] == 'int': res.v = add(res.v, it.load(el))
                else: raise ToolLimit('algorithm ' + short)
            else: res.v = call(f, [res.v, el])
        def inc(): idx.v = add(idx.v, 1)
        it.loop({'id': 'fold%s' % e.get('l'), 'k': 'RangeFor'}, lambda: self.c.branch(lt(idx.v, b[2])), body, inc)
        return ('iter', lv, res.v) if best else res.v

    def sort_model(self, v, nodes, e):
        """stable_sort with operator< : an uninterpreted permutation of the input.  The
        relation's contract (the real operator<) is verified separately."""
        rel = 'operator<'
        if len(nodes) > 2: raise ToolLimit('stable_sort with a comparator')
        self.x.model('std::stable_sort (assumed: the stable permutation of its input ordered by operator<)')
        return self.S.ufv('stable_sort', ('vec', v.t), v)

    def fgets(self, nodes, e):
        d = self.val(nodes[0]); n = self.val(nodes[1]); fp = self.val(nodes[2])
        if not (isinstance(fp, Ptr) and fp.lv is not None): raise ToolLimit('fgets')
        f = self.it.load_nocheck(fp.lv)
        b = self.it.load_nocheck(d.lv) if isinstance(d, Ptr) and d.lv is not None else None
        if not (isinstance(f, Rec) and f.t == 'file' and isinstance(b, Buf) and isinstance(n, int) and n >= 2 and d.off == 0): raise ToolLimit('fgets')
        self.c.oblige('buffer-bounds@' + self.it.fname(), n <= b.size, self.it.loc(e))
        self.x.model('fgets (assumed: the next characters of the file up to and including a newline, at most size - 1; null at the end)')
        t, pos = f.f['text'], f.f['pos']; ln = self.x.slen(t)
        if not self.c.branch(lt(pos, ln)): return NULL
        k = self.x.find(t, '\n', pos)
        if self.c.branch(conj(le(0, k), le(sub(add(k, 1), pos), n - 1))): take = sub(add(k, 1), pos)
        elif self.c.branch(le(sub(ln, pos), n - 1)): take = sub(ln, pos)
        else: take = n - 1
        piece = self.x.substr(t, pos, take)
        lemma(self.c, 'a piece that ends after the next newline ends with it', lambda t, a, f, s: z3.Implies(z3.And(0 <= a, f == z3.IndexOf(t, '\n', a), f >= 0, s == z3.SubString(t, a, f + 1 - a)), z3.StrToCode(s.at(z3.Length(s) - 1)) == 10), t, pos, k, piece)
        lemma(self.c, 'a piece that stops before the next newline does not end with one', lambda t, a, f, n, s: z3.Implies(z3.And(0 <= a, 1 <= n, a + n <= z3.Length(t), f == z3.IndexOf(t, '\n', a), z3.Or(f < 0, f >= a + n), s == z3.SubString(t, a, n)), z3.StrToCode(s.at(z3.Length(s) - 1)) != 10), t, pos, k, take, piece)
        self.it.store(d.lv, Buf(b.size, ((0, b.size, ('cstr', piece)),)))
        self.it.store(fp.lv, f.with_('pos', add(pos, take)))
        return d

    def read_bytes(self, d, n, flv, e):
        """read up to n bytes of a file into memory; how many there were"""
        f = self.it.load_nocheck(flv); b = self.it.load_nocheck(d.lv) if isinstance(d, Ptr) and d.lv is not None else None
        if not (isinstance(f, Rec) and f.t in ('file', 'bytesin') and isinstance(b, Buf) and isinstance(n, int)): raise ToolLimit('fread')
        self.c.oblige('buffer-bounds@' + self.it.fname(), conj(le(0, d.off), le(add(d.off, n), b.size)), self.it.loc(e))
        self.x.model('fread / istream::read (assumed: the next bytes of the file, as many as asked for or as there are)')
        t, pos = f.f['text'], f.f['pos']; left = sub(self.x.slen(t), pos)
        if f.f.get('fail') is True: got = 0
        else: got = n if self.c.branch(le(n, left)) else left
        self.it.store(d.lv, Buf(b.size, ((d.off, got, ('bytes', self.x.substr(t, pos, got))),) if isinstance(got, int) and d.off == 0 and got >= b.size else b.writes + ((d.off, got, ('bytes', self.x.substr(t, pos, got))),)))
        nf = f.with_('pos', add(pos, got))
        if f.t == 'bytesin': nf = nf.with_('got', got).with_('fail', nf.f['fail'] is True or got is left)
        self.it.store(flv, nf)
        return got

    def getline(self, nodes, e):
        st = self.it.ev(nodes[0]); lv = self.it.ev(nodes[1])
        s = self.it.load(st)
        if not (isinstance(s, Rec) and s.t == 'istream'): raise ToolLimit('getline')
        k = s.f['k']
        self.x.model('std::getline / istream state (assumed: successive lines, then failure; good until then, and possibly after the last line)')
        if len(nodes) > 2 and self.val(nodes[2]) not in (10,):
            d = self.val(nodes[2])
            if not (isinstance(d, CharV) and d.code == 10): raise ToolLimit('getline delimiter')
        o = self.S.ufv('srcline', ('opt', T_STR), s.f['id'], k)
        if s.f['failed'] is not True and s.f['failed'] is not False: raise ToolLimit('stream state')
        if s.f['failed'] or not self.c.branch(o.has):
            self.it.store(st, s.with_('failed', True)); self.it.store(lv, '')
        else:
            self.it.store(st, s.with_('k', add(k, 1))); self.it.store(lv, o.val)
        return st

    def stream_state(self, s, m):
        f = s.f['failed']
        if m == 'fail': return f
        if m == 'operator bool': return neg(f)
        if m == 'operator!': return f
        if f is True: return m == 'eof'
        more = self.S.ufv('srcline', ('opt', T_STR), s.f['id'], s.f['k']).has
        g = disj(more, uf('stillgood', 'bool', [s.f['id'], s.f['k']]))
        return g if m == 'good' else neg(g)

    def replace(self, s, a, b):
        def is_(t, c): return is_term(t) and z3.eq(t, c)
        if (is_(a, POINT) or is_(a, GROUP)) and (isinstance(s, str) and s.lstrip('-').isdigit() or is_term(s) and z3.is_app(s) and s.decl().name().startswith('intstr_')): return s     # no separators in it
        return self.x.replace_all(s, a, b)

    def local_of(self, s):
        """the text of which s is the same with the decimal point of the locale"""
        if is_term(s) and z3.is_app(s) and s.decl().name().startswith('replace_all') and s.num_args() == 3 and z3.eq(s.arg(1), z3.StringVal('.')) and z3.eq(s.arg(2), POINT): return s.arg(0)
        return None

    def sscanf(self, nodes, e):
        fmt = self.cstr(self.val(nodes[1])); s = self.cstr(self.val(nodes[0]))
        outs = [self.val(n) for n in nodes[2:]]
        if fmt in ('%d', '%f') and len(outs) == 1:
            p = outs[0]
            raw = self.local_of(s)
            v = self.x.scan_int(s if raw is None else raw) if fmt == '%d' else self.x.scan_real_here(s, raw)
            ok, val = v
            if self.c.branch(ok):
                self.it.store(p.lv, val); return 1
            return 0
        n = len(outs)
        if fmt == '%2x' * n:
            oks, vals = self.x.hexscan(s, n)
            done = 0
            for k in range(n):
                if not self.c.branch(oks[k]): break
                self.it.store(outs[k].lv, vals[k]); done += 1
            return done
        raise ToolLimit('sscanf format')

    def snprintf(self, nodes, e):
        buf = self.val(nodes[0]); size = self.val(nodes[1]); fmt = self.cstr(self.val(nodes[2]))
        args = [self.val(n) for n in nodes[3:]]
        m = re.fullmatch(r'%(0?)(\d*)(l{0,2})([du])', fmt)
        if not m or len(args) != 1: raise ToolLimit('snprintf format %s' % fmt)
        w = int(m.group(2) or 0)
        at = ty(nodes[3]['t'])
        if at[0] == 'int':
            need = 64 if m.group(3) else 32
            self.c.oblige('printf-format@' + self.it.fname(), at[1] == need and (m.group(4) == 'd') == at[2], self.it.loc(e))
        v = self.x.int_str(args[0], w if m.group(1) else 0)
        b = self.it.load_nocheck(buf.lv)
        self.it.store(buf.lv, Buf(b.size, ((0, b.size, ('cstr', v)),)))
        return self.x.slen(v)

    def mem(self, short, nodes, e):
        d = self.val(nodes[0]); n = self.val(nodes[2])
        if not (isinstance(d, Ptr) and d.lv is not None): raise ToolLimit('memory function destination')
        b = self.it.load_nocheck(d.lv)
        if not isinstance(b, Buf): raise ToolLimit('memory function destination')
        self.c.oblige('buffer-bounds@' + self.it.fname(), conj(le(0, d.off), le(0, n), le(add(d.off, n), b.size)), self.it.loc(e))
        if short == 'memset':
            src = ('fill', self.val(nodes[1]))
        else:
            s = self.val(nodes[1])
            if isinstance(s, Ptr) and s.lv is not None:
                sb = self.it.load_nocheck(s.lv)
                if isinstance(sb, Buf) and s.off == 0 and d.off == 0 and isinstance(n, int) and n == b.size == sb.size:
                    self.it.store(d.lv, sb); return d
                raise ToolLimit('memcpy between buffers')
            s = self.cstr(s)
            self.c.oblige('source-bounds@' + self.it.fname(), le(n, add(self.x.slen(s), 1)), self.it.loc(e))
            src = ('str', s); n0 = n; n = self.c.value(n); n = n0 if n is None else n
        if not (isinstance(n, int) and n == 0):
            self.it.store(d.lv, Buf(b.size, b.writes + ((d.off, n, src),)))
        return d

    # ------------------------------------------------------------ constructors
    def construct(self, t, fn, e):
        a = e['args']; x = self.x
        k = t[0]
        if k in ('str', 'wstr'):
            if not a: return ''
            if len(a) == 1 or (len(a) == 2 and ty(a[1]['t'])[0] not in ('int',)):
                v = self.val(a[0])
                if isinstance(v, tuple) and v[0] == 'iter' and len(a) == 2: return self.range_str(v, self.val(a[1]))
                return self.sval(v)
            pts = fn.get('pt', [])
            v = self.val(a[0])
            if ty(a[0]['t'])[0] == 'int' and ty(a[1]['t'])[0] in ('char', 'int'):
                n, ch = v, self.unit(self.val(a[1]))
                return x.repeat(ch, n)
            if isinstance(v, tuple) and v[0] == 'iter': return self.range_str(v, self.val(a[1]))
            if isinstance(v, Ptr) or isinstance(v, str):
                n = self.val(a[1])
                if isinstance(v, Ptr) and v.lv is not None:
                    b = self.it.load_nocheck(v.lv)
                    if isinstance(b, Buf):
                        self.c.oblige('source-bounds@' + self.it.fname(), conj(le(0, n), le(add(v.off, n), b.size)), self.it.loc(e))
                        return self.buf_text(b, v.off, n)
                s = self.cstr(v)
                if ty(pts[0])[0] == 'ptr' if pts else False:
                    self.c.oblige('source-bounds@' + self.it.fname(), le(n, add(x.slen(s), 1)), self.it.loc(e))
                    return x.substr(s, 0, n)
            if (is_term(v) and z3.is_string(v)) or isinstance(v, str):
                pos = self.val(a[1]); n = self.val(a[2]) if len(a) > 2 and a[2]['k'] != 'DefaultArg' else None
                return self.substr(v, pos, n, e)
            raise ToolLimit('string constructor at %s' % e.get('l'))
        if k == 'opt':
            if not a: return Opt(t[1], False, None)
            v = self.val(a[0])
            return self.to_opt(v, t, a[0])
        if k == 'vec':
            if not a: return Vec(t[1])
            n = self.val(a[0])
            if isinstance(n, Vec): return n
            if isinstance(n, int) and n < 200:
                d = self.val(a[1]) if len(a) > 1 and ty(a[1]['t']) == t[1] else self.it.default(t[1])
                return Vec(t[1], [El(d)] * n)
            raise ToolLimit('vector constructor')
        if k == 'map':
            if not a: return MapV(t[1], t[2])
            v = self.val(a[0])
            if isinstance(v, MapV): return v
            raise ToolLimit('map constructor')
        if k == 'pair':
            if len(a) == 1: return self.val(a[0])
            return Rec('pair', {'first': self.val(a[0]), 'second': self.val(a[1])})
        if k == 'ptr':
            if not a: return NULL
            return self.val(a[0])
        if k == 'fn': return self.val(a[0]) if a else Opaque('empty function')
        if k == 'rec':
            n = t[1]
            if n.startswith('boost::basic_regex') or n.startswith('std::basic_regex'):
                s = self.sval(self.val(a[0])) if a else ''
                if not isinstance(s, str): raise ToolLimit('symbolic regex')
                return Rec('regex', {'rx': s})
            if n.startswith('boost::match_results'): return self.default_rec(t)
            if 'is_any_ofF' in n: return self.val(a[0])
            if 'iterator' in n: return self.val(a[0])
            if '_bi::bind_t' in n or '_Bind' in n: return self.val(a[0])
            if n.startswith('std::basic_ostringstream') or n.startswith('std::basic_stringstream'): return self.default_rec(t)
            if n.startswith('std::locale'): return Opaque('locale')
            if 'noncopyable' in n: return Rec(n, {})
            if n.startswith('std::allocator'): return Opaque('allocator')
            if n.startswith('std::fpos'): return self.val(a[0]) if a else 0
            if 'none_t' in n: return Rec('none', {})
            if n.startswith('std::basic_ifstream'):
                p = self.val(a[0]); p = p.f['s'] if isinstance(p, Rec) else self.sval(p)
                self.x.model('ifstream / fopen (assumed: the file exists and can be read)')
                return Rec('bytesin', {'text': x.fn('file_content', T_STR, None, p), 'pos': 0, 'got': 0, 'fail': False})
            if n.startswith('std::basic_ofstream'):
                p = self.val(a[0]); p = p.f['s'] if isinstance(p, Rec) else self.sval(p)
                self.x.model('ofstream (assumed: creates an empty file that can be written)')
                w = self.it.groots.get('arg:written')
                if w is None: raise ToolLimit('ofstream')
                w.v = Rec('written', {'name': p, 'text': ''})
                return Rec('ofstream', {'file': w})
            if n.startswith('boost::filesystem::path'): return Rec('path', {'s': self.sval(self.val(a[0]))})
        raise ToolLimit('constructor %s at %s' % (fn['q'], e.get('l')))

    def range_str(self, a, b):
        s = self.it.load(a[1])
        return self.x.substr(s, a[2], sub(b[2], a[2]))

    def to_opt(self, v, t, node=None):
        if isinstance(v, Opt): return v
        if isinstance(v, Rec) and v.t == 'none': return Opt(t[1], False, None)
        it = strip(t[1])
        if it[0] == 'int' and node is not None:
            st = ty(node['t'])
            while st[0] == 'ref': st = st[1]
            if st[0] == 'int' and st != it: v = self.it.int_cast(v, st, it, node)
            elif st[0] == 'real': v = rtrunc(v)
        if it[0] == 'real': v = self.it.to_real(v)
        if it[0] == 'str': v = self.sval(v)
        return Opt(t[1], True, v)

    def new(self, e):
        at = ty(e['at']); it = self.it
        nm = (it.frames[-1].path if it.frames else '') + '/new@' + str(at)
        def root(v, t): return Ptr(lv=LV(it.new_root(nm + '#%d' % sum(1 for r in it.heap if r.name.startswith(nm)), t, v, heap=True)))
        if e['array']:
            n = self.val(e['size'])
            if not isinstance(n, int) or at not in (('char',), ('int', 8, False)) or e.get('init') and e['init'].get('k') not in ('Construct',): raise ToolLimit('new[] at %s' % e.get('l'))
            return root(Buf(n), ('arr', at, n))
        v = it.init_val(e['init'], at) if e.get('init') else it.default(at)
        return root(v, at)

    # ------------------------------------------------------------ repo functions modelled rather than executed
    def repo_call(self, fn, this, nodes, e):
        q = fn['q'].split('<')[0]
        if q == 'String::compose':
            args = [self.val(n) for n in nodes]
            r = self.compose(args)
            if r is not None: return r
            self.x.model('String::compose (error-message text only; an uninterpreted function of its arguments)')
            try: return uf('compose', 'str', self.S.flat(args))
            except ToolLimit: return Opaque('message')
        if q.startswith('String::Composition') or q == 'sub::Reader::warn':
            for n in nodes: self.val(n)
            return None
        if q == 'sub::raw_convert':
            rt = ty(fn['ret'])
            v = self.val(nodes[0])
            if 'raw_convert_body' in self.it.names: return NOTHANDLED
            if rt == T_INT: self.c.stats.modular.add('sub::raw_convert<int>'); return self.x.raw_int(v)
            if rt[0] == 'real': self.c.stats.modular.add('sub::raw_convert<float>'); return self.x.raw_real(v)
            if rt == T_STR: return self.x.int_str(v)
        return NOTHANDLED

    # ------------------------------------------------------------ operators
    def opcall(self, op, fn, e):
        x = self.x; a = e['args']
        if op in ('<<',):
            return self.ostream_put(a, e)
        if op == '->' or (op == '*' and len(a) == 1):
            v = self.it.ev(a[0])
            cur = self.it.load(v) if isinstance(v, LV) else v
            if isinstance(cur, Opt):
                self.opt_set(cur, e)
                if isinstance(v, LV):
                    return v.sub(('v',)) if op == '*' else Ptr(lv=v.sub(('v',)))
                r = cur.val
                return r if op == '*' else Ptr(lv=LV(self.it.new_root('tmp', cur.t, r)))
            if isinstance(cur, Ptr) or isinstance(cur, NullP):
                if op == '->': return cur
                return self.it.deref(cur, e)
            if isinstance(cur, tuple):
                r = self.it_deref(cur, e)
                if op == '*': return r
                return Ptr(lv=r if isinstance(r, LV) else LV(self.it.new_root('tmp', None, r)))
            raise ToolLimit('operator%s on %r' % (op, cur))
        if op == '!':
            v = self.val(a[0])
            if isinstance(v, Opt): return neg(v.has)
            if isinstance(v, NullP): return True
            if isinstance(v, Ptr): return False
            raise ToolLimit('operator!')
        if op == '[]':
            lv = self.it.ev(a[0]); i = self.val(a[1])
            v = self.it.load(lv) if isinstance(lv, LV) else lv
            if isinstance(v, Vec):
                i = S._num(i)
                self.c.oblige('index-bounds@' + self.it.fname(), conj(le(0, i), lt(i, self.S.vlen(v))), self.it.loc(e))
                return lv.sub(('i', i)) if isinstance(lv, LV) else self.S.vget(v, i)
            if isinstance(v, MapV):
                h, val = self.S.map_find(v, i)
                if not h:
                    if not isinstance(lv, LV): raise ToolLimit('operator[] on map value')
                    val = self.it.e_ValueInit({'t': ''}) if False else self.zero(v.vt)
                    self.map_insert_check(lv, v, i, e)
                    self.it.store(lv, self.S.map_put(v, i, val))
                    return lv.sub(('k', i))
                if len(v.chain) > 8 and is_term(S._num(i)) : return val
                return lv.sub(('k', i)) if isinstance(lv, LV) else val
            if isinstance(v, str) or (is_term(v) and z3.is_string(v)):
                i = S._num(i)
                wide = fn and 'wchar_t' in fn['q']
                self.c.oblige('string-bounds@' + self.it.fname(), conj(le(0, i), le(i, x.slen(v))), self.it.loc(e))
                if isinstance(lv, LV) and not wide and fn and not fn['ret'].startswith('const'):
                    return CharRef(self, lv, i) if False else lv.sub(('c', i))
                return self.char_at(v, i, wide)
            if isinstance(v, Rec) and v.t == 'smatch':
                g = v.f['g']
                if isinstance(i, int) and i < len(g.segs): return Rec('submatch', {'s': g.segs[i].v})
                return Rec('submatch', {'s': ''})
            raise ToolLimit('operator[] on %r' % (v,))
        if op == '=':
            lv = self.it.ev(a[0]); v = self.it.ev(a[1])
            cur = lv
            if isinstance(v, LV): v = self.it.load(v)
            t = ty(a[0]['t']); t = strip(t)
            if t[0] == 'opt': v = self.to_opt(v, t, a[1])
            elif t[0] in ('str', 'wstr'): v = self.sval(v)
            self.it.store(lv, v); return lv
        if op == '+=':
            lv = self.it.ev(a[0]); cur = self.it.load(lv)
            if isinstance(cur, tuple):
                self.it.store(lv, self.iter_add(cur, self.val(a[1]), e)); return lv
            v = self.val(a[1])
            if isinstance(cur, Vec):          # wide strings
                if isinstance(v, Vec) and not cur.upds and not v.upds: self.it.store(lv, self.S.norm(Vec(cur.t, cur.segs + v.segs)))
                elif not isinstance(v, Vec): self.it.store(lv, Vec(cur.t, cur.segs + (El(S._num(v)),), cur.upds))
                else: raise ToolLimit('+= on updated')
                return lv
            if fn and 'wchar_t' in fn['q'] and not isinstance(v, str) and not (is_term(v) and z3.is_string(v)):
                s = chr(v) if isinstance(v, int) else z3.StrFromCode(v)
            else: s = self.sval(v)
            self.it.store(lv, x.cat(cur, s)); return lv
        if op == '+':
            l, r = self.val(a[0]), self.val(a[1])
            if isinstance(l, tuple): return self.iter_add(l, r, e)
            return x.cat(self.sval(l), self.sval(r))
        if op == '-':
            l, r = self.val(a[0]), self.val(a[1])
            if isinstance(l, tuple) and isinstance(r, tuple): return sub(l[2], r[2])
            if isinstance(l, tuple): return self.iter_add(l, sub(0, r), e)
        if op in ('++', '--'):
            lv = self.it.ev(a[0]); cur = self.it.load(lv)
            self.it.store(lv, self.iter_add(cur, 1 if op == '++' else -1, e))
            return cur if len(a) > 1 else lv
        if op in ('==', '!='):
            l, r = self.it.ev(a[0]), self.it.ev(a[1])
            f = self.equal(l, r, a, e)
            return f if op == '==' else neg(f)
        if op in ('<', '>', '<=', '>='):
            l, r = self.val(a[0]), self.val(a[1])
            if isinstance(l, tuple): l, r = l[2], r[2]
            elif isinstance(l, Opt) or isinstance(r, Opt): raise ToolLimit('ordering of optionals')
            else:
                l, r = self.sval(l), self.sval(r)
                if isinstance(l, str) and isinstance(r, str):
                    return {'<': l < r, '>': l > r, '<=': l <= r, '>=': l >= r}[op]
                l, r = zstr(l), zstr(r)
                return {'<': l < r, '>': r < l, '<=': l <= r, '>=': r <= l}[op]
            return lt(l, r) if op == '<' else lt(r, l) if op == '>' else le(l, r) if op == '<=' else le(r, l)
        raise ToolLimit('operator %s %s at %s' % (op, fn and fn['q'], e.get('l')))

    def map_insert_check(self, lv, v, i, e): pass

    def zero(self, t):
        t = strip(t)
        if t[0] in ('int', 'char', 'enum'): return 0
        if t[0] == 'ptr': return NULL
        if t[0] == 'bool': return False
        if t[0] == 'real': return Fraction(0)
        return self.it.default(t)

    def equal(self, l, r, a, e):
        it = self.it
        lv, rv = (it.load(l) if isinstance(l, LV) else l), (it.load(r) if isinstance(r, LV) else r)
        if isinstance(lv, tuple) and isinstance(rv, tuple): return self.it_eq(lv, rv)
        if isinstance(lv, Opt) or isinstance(rv, Opt):
            if not isinstance(lv, Opt): lv, rv, l, r = rv, lv, r, l
            if isinstance(rv, Rec) and rv.t == 'none': return neg(lv.has)
            if not isinstance(rv, Opt):
                if not self.c.branch(lv.has): return False
                return self.value_eq(lv.val, rv, lv.t)
            if not self.c.branch(self.S.eq(lv.has, rv.has)): return False
            if not self.c.branch(lv.has): return True
            return self.value_eq(lv.val, rv.val, lv.t)
        if isinstance(lv, (str, Ptr)) or (is_term(lv) and z3.is_string(lv)):
            if isinstance(lv, Ptr) and lv.sv is None and isinstance(rv, (Ptr, NullP)): return self.S.eq(lv, rv) if not isinstance(rv, NullP) else False
            return self.S.eq(self.sval(lv), self.sval(rv))
        if isinstance(lv, Vec): return self.vec_eq(lv, rv, e)
        if isinstance(lv, NullP) or isinstance(rv, NullP): return isinstance(lv, NullP) and isinstance(rv, NullP)
        raise ToolLimit('operator== on %r' % (lv,))

    def value_eq(self, a, b, t):
        """== on optional payloads: calls the repo's operator== when there is one"""
        t = strip(t)
        if t[0] == 'rec':
            for f in self.it.db.fn.values():
                if f['q'].split('::')[-1] == 'operator==' and len(f['pt']) == (1 if 'cls' in f and f.get('cls') else 2) and strip(ty(f['pt'][0])) == t:
                    h = self.it.hooks.get(f['key']) or self.it.hooks.get(f['q'] if f.get('cls') else f['q'] + '(' + t[1] + ')')
                    if h:
                        self.c.stats.modular.add(f['q'])
                        if f.get('cls'): return h(self.it, LV(self.it.new_root('opteq', t, a)), [b], None)
                        return h(self.it, None, [a, b], None)
                    la, lb = [LV(self.it.new_root('opteq', t, v)) for v in (a, b)]
                    if f.get('cls'): return self.it.call_def(f, la, [lb])
                    return self.it.call_def(f, None, [la, lb])
            raise ToolLimit('operator== for %s' % (t,))
        return self.S.eq(a, b)

    def vec_eq(self, a, b, e=None):
        if self.S.same(self.S.vlen(a), 0) and self.S.same(self.S.vlen(b), 0): return True
        if a.t[0] != 'rec': return self.S.eq(a, b)
        # element by element with the real operator==
        from .interp import BreakX
        it = self.it
        n = self.S.vlen(a)
        if not self.c.branch(self.S.eq(n, self.S.vlen(b))): return False
        fr = it.frames[-1]; nm = '%s/vec=%s' % (fr.path, e.get('l') if e else '')
        for r in [r for r in fr.roots if r.name == nm]: fr.roots.remove(r)
        idx = it.new_root(nm, ('int', 64, False), 0); diff = []
        def body():
            r = self.value_eq(self.S.vget(a, idx.v), self.S.vget(b, idx.v), a.t)
            if isinstance(r, LV): r = it.load(r)
            if not self.c.branch(r): diff.append(1); raise BreakX()
        def inc(): idx.v = add(idx.v, 1)
        it.loop({'id': 'vec=%s' % (e.get('l') if e else ''), 'k': 'RangeFor'}, lambda: self.c.branch(lt(idx.v, n)), body, inc)
        return not diff

    def opt_set(self, o, e):
        h = o.has
        self.c.oblige('optional-set@' + self.it.fname(), h if isinstance(h, bool) else h, self.it.loc(e))
        if o.val is None: raise PathEnd()

    def ostream_put(self, a, e):
        lv = self.it.ev(a[0])
        cur = self.it.load(lv) if isinstance(lv, LV) else lv
        if isinstance(cur, Opaque):
            self.val(a[1]); return cur
        if not (isinstance(cur, Rec) and cur.t == 'ostream'): raise ToolLimit('operator<< on %r' % (cur,))
        v = self.val(a[1])
        t = strip(ty(a[1]['t']))
        if isinstance(v, Rec) and v.t == 'setw': self.it.store(lv, cur.with_('w', v.f['n'])); return lv
        if isinstance(v, Rec) and v.t == 'setfill': self.it.store(lv, cur.with_('fill', v.f['c'])); return lv
        if isinstance(v, tuple) and v[0] == 'fnref': raise ToolLimit('stream manipulator')
        if t[0] in ('str', 'ptr', 'arr') or isinstance(v, str): s = self.sval(v)
        elif t[0] == 'int': s = self.x.int_str(v)
        elif t[0] == 'real': s = self.x.real_str(v)
        elif t[0] == 'char': s = self.unit(v)
        elif t[0] == 'bool': s = self.x.int_str(S._num(v))
        else: raise ToolLimit('operator<< of %s' % (t,))
        s = self.x.pad(s, cur.f['w'], cur.f['fill'])
        self.it.store(lv, Rec('ostream', {'text': self.x.cat(cur.f['text'], s), 'w': 0, 'fill': cur.f['fill']}))
        return lv

    # ------------------------------------------------------------ methods
    def substr(self, s, pos, n, e):
        ln = self.x.slen(s)
        if not self.c.branch(le(pos, ln)):
            from .interp import CppThrow
            raise CppThrow('std::out_of_range', (), self.it.loc(e))
        if n is None or (isinstance(n, int) and n >= (1 << 63)):
            return self.x.substr(s, pos)
        if isinstance(s, str) and not is_term(pos) and not is_term(n): return s[pos:pos+n]
        return self.x.substr(s, pos, n)

    def method(self, fn, b, nodes, e, callee=None):
        m = fn['q'].split('::')[-1]
        x = self.x
        lv = b if isinstance(b, LV) else None
        v = self.it.load(b) if isinstance(b, LV) else b
        V = lambda i: self.val(nodes[i])
        has = lambda i: i < len(nodes) and nodes[i]['k'] != 'DefaultArg'
        st = lambda nv: self.it.store(lv, nv)
        if isinstance(v, Opt):
            if m in ('get', 'value', 'operator*'):
                if m == 'value':
                    from .interp import CppThrow
                    if not self.c.branch(v.has): raise CppThrow('boost::bad_optional_access', (), '')
                else: self.opt_set(v, e)
                return lv.sub(('v',)) if lv else v.val
            if m in ('operator bool', 'is_initialized', 'has_value'): return v.has
            if m in ('get_value_or', 'value_or'):
                d = V(0)
                if not self.c.branch(v.has): return self.it.coerce(d, v.t)
                return v.val
            if m in ('reset',): st(Opt(v.t, False, None)); return None
            if m in ('operator=', 'emplace'):
                st(self.to_opt(V(0), ('opt', v.t), nodes[0])); return lv
            if m in ('operator->', 'get_ptr'): self.opt_set(v, e); return Ptr(lv=lv.sub(('v',)))
        isstr = isinstance(v, str) or (is_term(v) and z3.is_string(v))
        if isstr:
            r = self.strmethod(m, lv, v, nodes, e, fn)
            if r is not NOTHANDLED: return r
        if isinstance(v, Vec):
            r = self.vecmethod(m, lv, v, nodes, e)
            if r is not NOTHANDLED: return r
        if isinstance(v, MapV):
            if m == 'empty': return len(v.chain) == 0 if v.base is None else self.size0(v)
            if m == 'size' and v.base is None and all(not is_term(k) for k, _ in v.chain): return len(v.chain)
            if m == 'begin' and v.base is None: return ('iter', lv, 0)
            if m == 'end': return self.end(lv, v)
            if m == 'find':
                k = V(0)
                h, val = self.S.map_find(v, k)
                if not h: return self.end(lv, v)
                return ('mfind', lv, k)
            if m == 'count':
                h, val = self.S.map_find(v, V(0)); return 1 if h else 0
            if m == 'at':
                h, val = self.S.map_find(v, V(0))
                if not h:
                    from .interp import CppThrow
                    raise CppThrow('std::out_of_range', (), '')
                return val
            if m in ('operator=',): st(V(0)); return lv
            if m in ('insert', 'emplace') and lv is not None:
                if m == 'insert' and len(nodes) == 1:
                    p = V(0)
                    if not (isinstance(p, Rec) and p.t == 'pair'): raise ToolLimit('map insert')
                    k, val = p.f['first'], p.f['second']
                elif m == 'emplace' and len(nodes) == 2: k, val = V(0), V(1)
                else: raise ToolLimit('map ' + m)
                val = self.it.coerce(val, v.vt); v = self.it.load(lv)
                h, _ = self.S.map_find(v, k)
                if not h: st(self.S.map_put(v, k, val))
                return Rec('pair', {'first': ('mfind', lv, k), 'second': not h})
        if isinstance(v, Rec):
            if v.t == 'bytesin':
                if m == 'read': self.read_bytes(V(0), V(1), lv, e); return lv
                if m == 'gcount': return v.f['got']
                if m == 'seekg' and len(nodes) == 1:
                    p = V(0); self.x.model('istream::seekg (assumed: moves to that position unless the stream has failed)')
                    if v.f['fail'] is not True:
                        self.c.oblige('seek-in-file@' + self.it.fname(), conj(le(0, p), le(p, x.slen(v.f['text']))), self.it.loc(e)); st(v.with_('pos', p))
                    return lv
                if m == 'clear': st(v.with_('fail', False)); return None
                if m in ('fail', 'operator!'): return v.f['fail']
                if m == 'operator bool': return not v.f['fail']
                if m == 'close': return None
            if v.t == 'ofstream':
                if m == 'write':
                    p, n = V(0), V(1)
                    if isinstance(p, Ptr) and p.lv is not None:
                        bf = self.it.load_nocheck(p.lv)
                        if not isinstance(bf, Buf): raise ToolLimit('write of %r' % (bf,))
                        self.c.oblige('buffer-bounds@' + self.it.fname(), conj(le(0, p.off), le(add(p.off, n), bf.size)), self.it.loc(e))
                        t = self.buf_text(bf, p.off, n)
                    else:
                        t = self.sval(p); self.c.oblige('source-bounds@' + self.it.fname(), le(n, x.slen(t)), self.it.loc(e)); t = x.substr(t, 0, n) if not self.S.same(n, x.slen(t)) else t
                    self.x.model('ofstream::write (assumed: appends the bytes to the file)')
                    w = v.f['file']; w.v = w.v.with_('text', x.cat(w.v.f['text'], t)); return lv
                if m in ('close', 'flush'): return None
            if v.t == 'istream' and m in ('good', 'operator bool', 'operator!', 'eof', 'fail'): return self.stream_state(v, m)
            if v.t == 'smatch' and m == 'size': return len(v.f['g'].segs)
            if v.t == 'submatch' and (m.startswith('operator') or m == 'str'): return v.f['s']
            if v.t == 'smatch' and m == 'str':
                i = V(0); return v.f['g'].segs[i].v
            if v.t == 'ostream' and m == 'str': return v.f['text']
            if v.t == 'path': 
                if m in ('string', 'native', 'c_str'): return v.f['s'] if m != 'c_str' else Ptr(None, 0, v.f['s'])
                if m == 'extension':
                    self.x.model('path::extension (the last full stop of the file name and what follows it)')
                    return Rec('path', {'s': x.fn('path_extension', T_STR, path_extension, v.f['s'])})
            if v.t == 'pair' and m == 'operator=': st(V(0)); return lv
        if isinstance(v, (Ptr, NullP)):
            if m in ('get',): return v
            if m in ('operator bool',): return isinstance(v, Ptr)
        if m == 'operator=' and lv is not None: st(V(0)); return lv
        raise ToolLimit('method %s at %s' % (fn['q'], e.get('l')))

    def size0(self, v): raise ToolLimit('size of abstract map')

    def strmethod(self, m, lv, v, nodes, e, fn):
        x = self.x
        V = lambda i: self.val(nodes[i])
        has = lambda i: i < len(nodes) and nodes[i]['k'] != 'DefaultArg'
        st = lambda nv: self.it.store(lv, nv)
        wide = 'wchar_t' in fn['q']
        if m in ('size', 'length'): return x.slen(v)
        if m == 'empty': return self.S.eq(x.slen(v), 0) if not isinstance(v, str) else v == ''
        if m == 'clear': st(''); return None
        if m in ('c_str', 'data'): return Ptr(None, 0, v)
        if m == 'substr': return self.substr(v, V(0) if has(0) else 0, V(1) if has(1) else None, e)
        if m == 'find':
            p = V(0); p = self.sval(p)
            pos = V(1) if has(1) else 0
            r = x.find(v, p, pos)
            npos = (1 << 64) - 1
            if isinstance(r, int): return npos if r < 0 else r
            if self.c.probe or not self.c.branch(r >= 0): return npos
            self.c.assume(z3.And(r < (1 << 62), r <= lift(x.slen(v))))
            return r
        if m in ('find_first_of', 'find_first_not_of', 'rfind', 'find_last_of', 'find_last_not_of'):
            p = self.sval(V(0)); pos = V(1) if has(1) else None
            if m == 'find_first_of' and isinstance(p, str) and len(p) == 1:
                r = x.find(v, p, 0 if pos is None else pos)
                npos = (1 << 64) - 1
                if isinstance(r, int): return npos if r < 0 else r
                if not self.c.branch(r >= 0): return npos
                self.c.assume(z3.And(r < (1 << 62), r <= lift(x.slen(v))))
                return r
            if isinstance(p, str) and pos is None:
                if isinstance(v, str):
                    r = {'rfind': lambda: v.rfind(p), 'find_first_of': lambda: next((i for i, c in enumerate(v) if c in p), -1), 'find_first_not_of': lambda: next((i for i, c in enumerate(v) if c not in p), -1),
                         'find_last_of': lambda: max([i for i, c in enumerate(v) if c in p] or [-1]), 'find_last_not_of': lambda: max([i for i, c in enumerate(v) if c not in p] or [-1])}[m]()
                    return (1 << 64) - 1 if r < 0 else r
                x.model('string::%s (assumed: npos or an index in range)' % m)
                r = uf('%s_%s' % (m, ''.join('%02x' % ord(c) for c in p)), 'int', [v])
                self.c.assume(z3.And(r >= -1, r < z3.Length(v), r < (1 << 62)))
                if self.c.probe or not self.c.branch(r >= 0): return (1 << 64) - 1
                return r
            raise ToolLimit(m)
        if m == 'erase':
            pos = V(0) if has(0) else 0
            n = V(1) if has(1) else None
            ln = x.slen(v)
            if isinstance(pos, tuple): raise ToolLimit('erase iterator')
            if not self.c.branch(le(pos, ln)):
                from .interp import CppThrow
                raise CppThrow('std::out_of_range', (), self.it.loc(e))
            head = x.substr(v, 0, pos)
            if n is None or (isinstance(n, int) and n >= (1 << 63)): st(head)
            else: st(x.cat(head, x.substr(v, add(pos, n)) if not (isinstance(pos, int) and pos == 0) else self.tail(v, n)))
            return lv
        if m in ('push_back',):
            ch = V(0)
            st(x.cat(v, (chr(ch) if isinstance(ch, int) else z3.StrFromCode(ch)) if wide else self.unit(ch))); return None
        if m == 'append' and len([n for n in nodes if n['k'] != 'DefaultArg']) == 1: st(x.cat(v, self.sval(V(0)))); return lv
        if m == 'append':
            a, b = V(0), V(1)
            if isinstance(a, int) and not isinstance(b, int) or ty(nodes[0]['t'])[0] == 'int': st(x.cat(v, x.repeat(self.unit(b), a))); return lv
            raise ToolLimit('append')
        if m in ('operator=', 'assign') and len(nodes) == 1: st(self.sval(V(0))); return lv
        if m == 'begin' or m == 'cbegin': return ('iter', lv, 0)
        if m == 'end' or m == 'cend': return ('iter', lv, x.slen(v))
        if m == 'at':
            i = V(0)
            if not self.c.branch(lt(i, x.slen(v))):
                from .interp import CppThrow
                raise CppThrow('std::out_of_range', (), '')
            return self.char_at(v, i, wide)
        if m in ('back', 'front'):
            n = x.slen(v)
            self.c.oblige('not-empty@' + self.it.fname(), lt(0, n), self.it.loc(e))
            i = sub(n, 1) if m == 'back' else 0
            return lv.sub(('c', i)) if lv else self.char_at(v, i, wide)
        if m == 'pop_back':
            n = x.slen(v)
            self.c.oblige('not-empty@' + self.it.fname(), lt(0, n), self.it.loc(e))
            st(x.substr(v, 0, sub(n, 1))); return None
        if m == 'compare' and len(nodes) == 1:
            eq = self.S.eq(v, self.sval(V(0)))
            return z3.If(zbool(eq), z3.IntVal(0), uf('strcmp', 'int', [v])) if is_term(eq) else (0 if eq else 1)
        if m == 'compare' and len(nodes) == 3:
            s = self.substr(v, V(0), V(1), e); eq = self.S.eq(s, self.sval(V(2)))
            return z3.If(zbool(eq), z3.IntVal(0), z3.IntVal(1)) if is_term(eq) else (0 if eq else 1)
        if m in ('reserve', 'shrink_to_fit'): return None
        if m == 'resize' and isinstance(v, str) and isinstance(V(0), int) and V(0) <= len(v): st(v[:V(0)]); return None
        if m == 'replace' : raise ToolLimit('string::replace')
        return NOTHANDLED

    def tail(self, v, n):
        """v without its first min(n, size) characters"""
        if isinstance(v, str) and isinstance(n, int): return v[n:]
        ln = self.x.slen(v)
        c = le(n, ln)
        if self.c.prove(zbool(c)): return self.x.substr(v, n)
        if self.c.branch(c): return self.x.substr(v, n)
        return ''

    def vecmethod(self, m, lv, v, nodes, e):
        SY = self.S
        V = lambda i: self.val(nodes[i])
        st = lambda nv: self.it.store(lv, nv)
        if m == 'size': return SY.vlen(v)
        if m == 'empty': return SY.eq(SY.vlen(v), 0)
        if m == 'clear': st(Vec(v.t)); return None
        if m in ('emplace_back', 'emplace_front') and v.t[0] == 'rec' and not (len(nodes) == 1 and deref(ty(nodes[0]['t'])) == v.t):
            if m == 'emplace_front': raise ToolLimit('emplace_front')
            nv = self.emplace(v.t[1], nodes)
            st(Vec(v.t, v.segs + (El(nv),), v.upds)); return None
        if m in ('push_back', 'emplace_back') and len(nodes) == 1:
            val = V(0)
            if v.t[0] == 'str': val = self.sval(val)
            if v.t == ('blob',) and isinstance(val, Ptr) and val.lv is not None: val = self.freeze(val)
            st(Vec(v.t, v.segs + (El(val),), v.upds)); return None
        if m in ('back', 'front', 'pop_back', 'pop_front'):
            n = SY.vlen(v)
            self.c.oblige('not-empty@' + self.it.fname(), lt(0, n), self.it.loc(e))
            if m == 'pop_back': st(SY.vpop(v)); return None
            if m == 'pop_front': st(SY.vpopfront(v)); return None
            i = sub(n, 1) if m == 'back' else 0
            return lv.sub(('i', i)) if lv else SY.vget(v, i)
        if m == 'at':
            i = V(0)
            if not self.c.branch(lt(i, SY.vlen(v))):
                from .interp import CppThrow
                raise CppThrow('std::out_of_range', (), '')
            return lv.sub(('i', i)) if lv else SY.vget(v, i)
        if m in ('begin', 'cbegin'): return ('iter', lv if lv else LV(self.it.new_root('tmpvec', None, v)), 0)
        if m in ('end', 'cend'): return ('iter', lv if lv else LV(self.it.new_root('tmpvec', None, v)), SY.vlen(v))
        if m in ('reserve', 'shrink_to_fit'): 
            for n in nodes: self.val(n)
            return None
        if m == 'operator=': st(V(0)); return lv
        if m == 'swap':
            o = self.it.ev(nodes[0]); ov = self.it.load(o); self.it.store(o, v); st(ov); return None
        if m == 'insert':
            pos, val = V(0), V(1)
            if len(nodes) == 2 and SY.same(pos[2], SY.vlen(v)): st(Vec(v.t, v.segs + (El(val),), v.upds)); return pos
            if len(nodes) == 3 and SY.same(pos[2], SY.vlen(v)):
                a, b = V(1), V(2)
                src = self.it.load(a[1])
                if SY.same(a[2], 0) and SY.same(b[2], SY.vlen(src)) and not v.upds and not src.upds:
                    st(Vec(v.t, v.segs + src.segs)); return pos
        if m == 'erase':
            pos = V(0)
            if len(nodes) == 1 and SY.same(pos[2], 0):
                st(SY.vpopfront(v)); return pos
        return NOTHANDLED

def deref(t): return t[1] if t[0] == 'ref' else t

def _mod256(t):
    return S._simp(t % 256)
