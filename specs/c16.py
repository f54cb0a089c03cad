"""C16: ISO 6937 conversion."""
from .common import *
from vc.check import Case
from . import gens
from vc.prod import Root, Ptr
import unicodedata
CASES = 6000
WCH = ('int', 32, True); WIDE = ('vec', WCH)
sc = lambda b: b - 256 if b > 127 else b            # char values are signed

# ---------------------------------------------------------------- the standard
# prefix byte -> (combining character, letters it may precede)
MARKS = {
    0xc1: (0x300, 'AEIOU aeiou'), 0xc2: (0x301, 'ACEILNORSUYZ acegilnorsuyz'), 0xc3: (0x302, 'ACEGHIJOSUWY aceghijosuwy'), 0xc4: (0x303, 'AINOU ainou'),
    0xc5: (0x304, 'AEIOU aeiou'), 0xc6: (0x306, 'AGU agu'), 0xc7: (0x307, 'CEGIZ cegz'), 0xc8: (0x308, 'AEIOUY aeiouy'), 0xca: (0x30a, 'AU au'),
    0xcb: (0x327, 'CGKLNRST cklnrst'), 0xcd: (0x30b, 'OU ou'), 0xce: (0x328, 'AEIU aeiu'), 0xcf: (0x30c, 'CDELNRSTZ cdelnrstz'),
}
MARKED = {p: {ord(l): ord(unicodedata.normalize('NFC', l + chr(m))) for l in ls.replace(' ', '')} for p, (m, ls) in MARKS.items()}
PLAIN = {10: 10}; PLAIN.update({c: c for c in range(32, 127)})
for first, text in ((0xa1, '¡¢£$¥'), (0xa7, '§¤‘“«←↑→↓°±²³×µ¶·÷’”»¼½¾¿'), (0xd0, '―¹®©™♪¬¦'), (0xdc, '⅛⅜⅝⅞ΩÆĐªĦ'), (0xe6, 'ĲĿŁØŒºÞŦŊŉĸæđðħıĳŀłøœßþŧŋ')):
    for k, ch in enumerate(text): PLAIN[first + k] = ord(ch)
PLAIN[0xe0] = 0x2126                                # the ohm sign proper
PLAIN[0xff] = 0xad
# typographic characters with no code of their own are written as the nearest one that has
SUBST = {0x201e: 0x201c, 0x2013: 0x2015, 0x2014: 0x2015, 0x2010: 0x2d, 0x2011: 0x2d, 0x2012: 0x2d, 0x2032: 0x27}
HAS_CODE = set(PLAIN.values()) | {v for t in MARKED.values() for v in t.values()}
def cmap(d): return MapV(T_CHAR, WCH, None, tuple((sc(k), v) for k, v in d.items()))
PLAINM = cmap(PLAIN); MARKEDM = {p: cmap(t) for p, t in MARKED.items()}

# ---------------------------------------------------------------- contracts
def decode(x, s, lem=None, table=lambda p: MARKEDM[p] if p else PLAINM):
    """a prefix combines with the next byte only; bytes and pairs without a meaning give nothing"""
    st = State(i=0, o=Vec(WCH), d=none(('int', 8, False))); n = x.slen(s)
    L = x.loop('bytes', st, inv=lambda s: [le(0, s.i), le(s.i, n)], variant=lambda s: sub(n, s.i))
    while True:
        yield L
        if lem: lem(s, st.i)
        if not x.is_lt(st.i, n): return st.o
        u = x.code(s, st.i)
        if x.b(conj(le(0xc1, u), le(u, 0xcf))): st.d = some(('int', 8, False), u)
        else:
            key = u if x.conc and u < 128 else sc(u) if x.conc else S._simp(z3.If(u < 128, u, u - 256))
            if not x.has(st.d): tab = table(None)
            else:
                tab = None
                for p in MARKED:
                    if x.is_(st.d.val, p): tab = table(p); break
                st.d = none(('int', 8, False))
            if tab is not None:
                f, v = x.map_find(tab, key)
                if f: st.o = x.push(st.o, v)
        st.i = x.add(st.i, 1)
def dec(s): return [e.v for e in conc(decode, s)[1].segs]
def encode(x, s, one):
    """each character on its own; one: its code, from the real code run on that character alone"""
    n = x.vlen(s); st = State(i=0, o='')
    L = x.loop('characters', st, inv=lambda s: [le(0, s.i), le(s.i, n)], variant=lambda s: sub(n, s.i))
    while True:
        yield L
        if not x.is_lt(st.i, n): return st.o
        c = x.vget(s, st.i)
        for ch in one:
            if x.is_(c, ch): st.o = x.cat(st.o, one[ch]); break
        st.i = x.add(st.i, 1)

# ---------------------------------------------------------------- proofs
NAMES = {0xc1: 'grave', 0xc2: 'acute', 0xc3: 'circumflex', 0xc4: 'tilde', 0xc5: 'macron', 0xc6: 'breve', 0xc7: 'dot', 0xc8: 'diaeresis', 0xca: 'ring', 0xcb: 'cedilla', 0xcd: 'double_acute', 0xce: 'ogonek', 0xcf: 'caron'}
NS = 'sub::iso6937::'
def glob(env, q): return env.it.global_lv(q, {'t': 'std::map<char, wchar_t>'})
def entries(env, lv): return {k: v for k, v in env.it.load(lv).chain}
def table_check(env, what):
    m = entries(env, glob(env, NS + 'main'))
    def plain(m): return {k: v for k, v in m.items() if not 0xc1 <= k % 256 <= 0xcf}     # prefix bytes alone mean nothing
    env.c.oblige('%s: every single-byte code means what the standard says' % what, plain(m) == plain(dict(PLAINM.chain)))
    d = entries(env, env.it.global_lv(NS + 'diacriticals', {'t': 'std::map<char, std::map<char, wchar_t> *>'}))
    env.c.oblige('%s: the diacritical prefixes are those of the standard' % what, sorted(k % 256 for k in d) == sorted(MARKED))
    for p in MARKED:
        env.c.oblige('%s: letters with %s' % (what, NAMES[p]), sc(p) in d and entries(env, d[sc(p)].lv) == dict(MARKEDM[p].chain))
def t_tables(env):
    out = env.call('sub::make_iso6937_tables', None, [])
    env.c.oblige('tables are made', out[0] == 'ret'); table_check(env, 'made')
def made(env):
    """tables already made or not"""
    if env.c.branch(z3.Bool('used_before')): env.c.oblige('make_iso6937_tables', env.call('sub::make_iso6937_tables', None, [])[0] == 'ret'); return True
    return False
def t_decode(env):
    s = env.fresh(T_STR, 's'); env.x.assume(neg(env.x.contains(s, '\0'))); made(env)
    def lem(s, i): env.lemma('a string without NUL has none at any position', lambda s, i: z3.Implies(z3.And(z3.Not(z3.Contains(s, z3.StringVal('\0'))), 0 <= i, i < z3.Length(s)), z3.StrToCode(s.at(i)) != 0), s, i)
    def table(p):
        """the tables in use, which table_check shows to be the standard's"""
        if p is None: return env.it.load(glob(env, NS + 'main'))
        return env.it.load(dict(env.it.load(env.it.global_lv(NS + 'diacriticals', {'t': ''})).chain)[sc(p)].lv)
    env.spec(decode(env.x, s, lem, table)); out = env.call('sub::iso6937_to_utf16', None, [s])
    env.compare('iso6937_to_utf16', out); table_check(env, 'afterwards')
_one = {}
def single(env):
    """the code of every character that has one, and of those with a substitute"""
    if not _one:
        for c in sorted(HAS_CODE | set(SUBST)):
            out = env.call('sub::utf16_to_iso6937', None, [Vec(WCH, [El(c)])])
            env.c.oblige('U+%04X can be written' % c, out[0] == 'ret' and isinstance(out[1], str) and (dec(out[1]) == [SUBST.get(c, c)]))
            _one[c] = out[1]
        for p, (m, ls) in MARKS.items():
            out = env.call('sub::utf16_to_iso6937', None, [Vec(WCH, [El(m)])]); env.c.oblige('U+%04X has no code' % m, out == ('ret', ''))
    return _one
def t_encode(used):
    def run(env):
        s = env.fresh(WIDE, 's')
        env.c.oblige('make_iso6937_tables', env.call('sub::make_iso6937_tables', None, [])[0] == 'ret')
        one = single(env)
        if not used:
            for q in [q for q in env.it.groots if q.startswith(NS)]: del env.it.groots[q]
        env.spec(encode(env.x, s, one)); out = env.call('sub::utf16_to_iso6937', None, [s])
        env.compare('utf16_to_iso6937', out); table_check(env, 'afterwards')
    return run
def tasks():
    T = ['iso6937', 'iso6937_tables']
    return [Task('tables', T, t_tables, 60), Task('decode', T, t_decode, 240), Task('encode, first use', T, t_encode(False), 400), Task('encode', T, t_encode(True), 400)]

# ---------------------------------------------------------------- replay
def rbytes(rng, n):
    o = []
    for _ in range(n):
        k = rng.randrange(8)
        o.append(rng.randrange(1, 256) if k < 2 else rng.choice(list(MARKED)) if k < 4 else ord(rng.choice('aceginorsuyzACEILNORSUYZ ')) if k < 6 else rng.choice(sorted(PLAIN)))
    return ''.join(map(chr, o))
def rwide(rng, n): return [rng.choice(sorted(HAS_CODE)) if rng.random() < .7 else rng.choice([rng.randrange(1, 256), rng.randrange(0x2000, 0x2100), rng.randrange(0x300, 0x340), 0x4e00, 0x1f600, rng.choice(list(SUBST)), rng.randrange(1, 0x600)]) for _ in range(n)]
def clean(w): return [SUBST.get(c, c) for c in w if c in HAS_CODE or c in SUBST]
def encoded(w):
    def j(g):
        if g[0] != 'ret' or not isinstance(g[1], str): return 'got %s' % (g,)
        try: d = dec(g[1])
        except Exception as e: return repr(e)
        if d != clean(w): return 'encodes to %r, which decodes to %s, not %s' % (g[1], d, clean(w))
    return j
def cases(rng, n, mined):
    for a in range(1, 256): yield Case('isodec ' + hexs(chr(a)), conc(decode, chr(a)), 'byte %02x' % a)
    for p in MARKED:
        for b in list(range(32, 127)) + [0xa4, 0xc1, 0xe1]: s = chr(p) + chr(b) + 'e'; yield Case('isodec ' + hexs(s), conc(decode, s), 'bytes %s' % hexs(s))
    for c in list(range(1, 0x600)) + list(range(0x2000, 0x2200)) + [0x266a]: yield Case('isoenc 2 %d 101' % c, encoded([c, 101]), 'U+%04X e' % c)
    while True:
        k = rng.randrange(3)
        if k == 0: s = rbytes(rng, gens.big(rng) or rng.randrange(12)); yield Case('isodec ' + hexs(s), conc(decode, s), 'bytes %s' % hexs(s))
        elif k == 1: w = rwide(rng, gens.big(rng) or rng.randrange(10)); yield Case('isoenc %d %s' % (len(w), ' '.join(map(str, w))), encoded(w), 'characters %s' % w)
        else:
            m = rng.randrange(1, 5); t = []; js_ = []
            for _ in range(m):
                if rng.random() < .5: s = rbytes(rng, rng.randrange(6)); t.append('d ' + hexs(s)); js_.append(lambda g, s=s: None if g == dec(s) else 'decodes %s to %s' % (hexs(s), g))
                else: w = rwide(rng, rng.randrange(5)); t.append('e %d%s' % (len(w), ''.join(' %d' % c for c in w))); js_.append(lambda g, w=w: encoded(w)(('ret', g)))
            def j(g, js_=js_):
                if g[0] != 'ret' or len(g[1]) != len(js_): return 'got %s' % (g,)
                for f, v in zip(js_, g[1]):
                    if f(v): return f(v)
            yield Case('isoseq %d %s' % (m, ' '.join(t)), j, 'one after the other: %s' % t)
