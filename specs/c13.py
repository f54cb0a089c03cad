"""C13: the text blocks of a written EBU STL file."""
from .common import *
from . import gens, c14
from .c15 import JC, CS, CF, encode as tab_encode, CLS as TAB
from .c16 import WIDE, HAS_CODE, PLAIN, MARKED, SUBST
from vc.check import Case
CASES = 2500
ROWS = 23; BLOB = ('blob',); BLOBS = ('vec', BLOB)
NORATE = 'sub::UnknownFrameRateError'

# ---------------------------------------------------------------- contracts
def byte(x, v):
    if isinstance(v, int): return chr(v & 255)
    return x.from_code(S._simp(v % 256))
def row(x, v):
    """the row a line is written on: the nearest of 23"""
    ref = opt_get(x, v.reference, TOP_OF_SCREEN); R = x.real
    if x.has(v.proportional): p = v.proportional.val
    elif x.has(v.line): p = x.rdiv(R(v.line.val), R(opt_get(x, v.lines, ROWS)))
    else: return 0
    if x.is_(ref, VCENTRE): p = x.radd(p, R(Fraction(1, 2)))
    elif x.is_(ref, BOTTOM_OF_SCREEN): p = x.rsub(R(1), p)
    return nearest(x, x.rmul(p, R(ROWS)))
def nearest(x, v):
    if x.conc: v = Fraction(v)
    if x.conc and abs(abs(v - v.numerator // v.denominator) - Fraction(1, 2)) < Fraction(1, 1000): raise OutOfScope('half way between two rows')
    return x.rint(v)
def x_row(x, line): return x.fn('stl_row', T_INT, row, line.vertical_position)
def frames_at(x, t, rate):
    """C02: the nearest whole frame"""
    if not x.has(t._rate): x.throw(NORATE)
    q = t._rate.val; y = Fraction(t._frames * q.denominator * rate.numerator, q.numerator * rate.denominator)
    if abs(y - y.numerator // y.denominator - Fraction(1, 2)) < Fraction(1, 100000): raise OutOfScope('half way between two frames')
    return int(y + Fraction(1, 2))
def x_frames_at(x, t, rate): return x.fn('frames_at', T_INT, frames_at, t, rate, exc=NORATE)
def timecode(x, t, rate):
    """hours, minutes, seconds, frames: a full second of frames is the next second"""
    f, s = x_frames_at(x, t, rate), t._seconds
    if not x.is_lt(f, x.rint(x.rdiv(x.real(rate.numerator), x.real(rate.denominator)))): s, f = x.add(s, 1), 0
    o = ''
    for v in (x.div(s, 3600), x.mod(x.div(s, 60), 60), x.mod(s, 60), f): o = x.cat(o, byte(x, v))
    return o
def x_timecode(x, t, rate): return x.fn('stl_timecode', BLOB, timecode, t, rate, exc=NORATE)
ENC = {}
for c_ in HAS_CODE: ENC[c_] = [chr(b) for b, v in PLAIN.items() if v == c_] + [chr(p) + chr(l) for p, t_ in MARKED.items() for l, v in t_.items() if v == c_]
def iso_encode(x, w):
    o = ''
    for e in w.segs:
        k = ENC.get(SUBST.get(e.v, e.v), [''])
        if len(k) > 1: raise OutOfScope('a character with two codes')
        o += k[0]
    return o
def encoded(x, text): return x.fn('isoenc', T_STR, iso_encode, x.utf(text, 'u2w'))
def rate_at(x, fps):
    if x.conc: return rat(int(fps * 1000), 1000)
    return rat(x.rtrunc(x.rmul(fps, x.real(1000))), 1000)
def near(o): return True if o.val is None else disj(neg(o.has), conj(le(-24000, o.val), le(o.val, 24000)))
def blocks(x, subs, fps):
    st = State(i=0, out=Vec(BLOB)); n = x.vlen(subs); rate = rate_at(x, fps)
    whole = {'out': lambda b: [le(128, x.slen(b)), le(x.slen(b), 128)]}
    T = x.loop('subtitles', st, inv=lambda s: [le(0, s.i), le(s.i, n)], each=whole, variant=lambda s: sub(n, s.i))
    while True:
        yield T
        if not x.is_lt(st.i, n): return st.out
        s = x.vget(subs, st.i); nl = x.vlen(s.lines)
        if x.conc and not nl: raise OutOfScope('a subtitle without lines')
        a = State(j=0, top=none(T_INT))
        L = x.loop('top row', a, inv=lambda s: [le(0, s.j), le(s.j, nl), disj(lt(s.j, 1), s.top.has)], variant=lambda s: sub(nl, s.j))
        while True:
            yield L
            if not x.is_lt(a.j, nl): break
            v = x_row(x, x.vget(s.lines, a.j)); a.j = x.add(a.j, 1)
            if not x.has(a.top) or x.is_lt(v, a.top.val): a.top = some(T_INT, v)
        b = State(j=0, text='', italic=False, underline=False, last=none(T_INT))
        L = x.loop('lines', b, inv=lambda s: [le(0, s.j), le(s.j, nl), near(s.last)], variant=lambda s: sub(nl, s.j))
        while True:
            yield L
            if not x.is_lt(b.j, nl): break
            l = x.vget(s.lines, b.j); v = x_row(x, l); b.j = x.add(b.j, 1)
            if x.has(b.last):
                c = State(k=b.last.val, text=b.text)
                D = x.loop('rows down', c, variant=lambda s: sub(v, s.k))
                while True:
                    yield D
                    if not x.is_lt(c.k, v): break
                    c.text = x.cat(c.text, '\x8a'); c.k = x.add(c.k, 1)
                b.text = c.text
            b.last = some(T_INT, v)
            d = State(k=0, text=b.text, italic=b.italic, underline=b.underline); np = x.vlen(l.blocks)
            P = x.loop('pieces', d, inv=lambda s: [le(0, s.k), le(s.k, np)], variant=lambda s: sub(np, s.k))
            while True:
                yield P
                if not x.is_lt(d.k, np): break
                p = x.vget(l.blocks, d.k); d.k = x.add(d.k, 1)
                d.text = x.cat(x.cat(d.text, switch(x, d.underline, p.underline, '\x82', '\x83')), switch(x, d.italic, p.italic, '\x80', '\x81'))
                d.underline, d.italic = p.underline, p.italic
                d.text = x.cat(d.text, encoded(x, p.text))
            b.text, b.italic, b.underline = d.text, d.italic, d.underline
        text = x.cat(x.cat(x.cat(b.text, switch(x, b.underline, False, '\x82', '\x83')), switch(x, b.italic, False, '\x80', '\x81')), '\x8f')
        tin, tout = x_timecode(x, s.f['from'], rate), x_timecode(x, s.to, rate)
        ref = x.vget(s.lines, 0).horizontal_position.reference
        just = 1 if x.is_(ref, 0) else 2 if x.is_(ref, 1) else 3
        m = x.slen(text)
        e = State(offset=0, number=0, out=st.out)
        B = x.loop('blocks', e, inv=lambda s: [le(0, s.offset), le(s.offset, m)], each=whole, variant=lambda s: sub(m, s.offset))
        while True:
            yield B
            if not x.is_lt(e.offset, m): break
            left = x.sub(m, e.offset); take = x.imin(112, left)
            piece = x.cat(x.substr(text, e.offset, take), x.repeat('\x8f', x.sub(112, take)))
            e.offset = x.add(e.offset, take)
            number = 0xff if x.is_(e.offset, m) else e.number
            o = '\x01\0\0'                                                    # subtitle group; subtitle number
            for q in (byte(x, number), '\0', tin, tout, byte(x, a.top.val), chr(just), '\0', piece): o = x.cat(o, q)
            e.out = x.push(e.out, o); e.number = x.add(e.number, 1)
        st.out = e.out; st.i = x.add(st.i, 1)
def switch(x, was, now, on, off):
    if x.b(now): return '' if x.b(was) else on
    return off if x.b(was) else ''

# ---------------------------------------------------------------- proofs
def pos_pre(x, v):
    """positions that make sense: at most a hundred screens away, of a positive number of rows"""
    big = lambda a: [le(-1000, a), le(a, 1000)]
    for f in big(v.line.val) + [le(1, v.lines.val), le(v.lines.val, 1000), le(x.real(-100), v.proportional.val), le(v.proportional.val, x.real(100))]: x.assume(f)
def t_row(env):
    l = env.fresh('sub::Line', 'line'); x = env.x; pos_pre(x, l.vertical_position)
    env.spec(gen(row)(x, l.vertical_position)); out = env.call('vertical_position', None, [l]); env.compare('vertical_position', out)
    if out[0] == 'ret': env.c.oblige('the row is near the screen', conj(le(-24000, out[1]), le(out[1], 24000)))
def t_timecode(rate):
    def run(env):
        x = env.x; t = env.fresh('sub::Time', 't'); q = rat(*rate); k = [0]
        x.assume(le(0, t._seconds)); x.assume(le(t._seconds, 359999)); x.assume(le(0, t._frames))
        env.modular('sub::Time::frames_at', 'frames_at', T_INT, exc=NORATE); h0 = env.it.hooks['sub::Time::frames_at']
        def h(it, this, args, node):
            v = it.load(this) if isinstance(this, LV) else this
            if v._frames == 0 and not is_term(v._frames):
                if not x.has(v._rate): raise CppThrow(NORATE, (), '')
                return 0                                        # C02: no frames are no frames at any rate
            r = h0(it, this, args, node); it.c.assume(z3.And(r >= 0, r <= 1000000)); return r
        env.hook('sub::Time::frames_at', h)
        b = env.var('b', ('arr', ('char',), 128), Buf(128))
        env.spec(gen(timecode)(x, t, q)); out = env.call('put_timecode', None, [Ptr(lv=b, off=5), t, q])
        env.compare('put_timecode', out, effects=[('the four bytes', lambda: env.it.lib.buf_text(env.it.load_nocheck(b), 5, 4), lambda: env.prod.spec_out[1])], result=False)
        if out[0] == 'ret': env.c.oblige('put_timecode: other bytes are left alone', all(not is_term(o) and 5 <= o and o + n <= 9 for o, n, _ in env.it.load_nocheck(b).writes))
    return run
def hook_tables(env):
    for n, tab in (('justification', JC), ('cumulative_status', CS), ('comment', CF)):
        def h(it, this, args, node, n=n, tab=tab):
            v = it.load(args[-1]) if isinstance(args[-1], LV) else args[-1]
            it.c.stats.modular.add(TAB + '::%s_enum_to_file' % n); return tab_encode(env.x, tab, v)
        env.hook(TAB + '::%s_enum_to_file' % n, h)
def t_blocks(env):
    x = env.x; it = env.it; hook_tables(env)
    subs = env.fresh(('vec', SUBT), 'subs'); fps = env.fresh(T_DBL, 'fps'); x.assume(z3.And(fps >= 1, fps <= 1000))
    for s in subs.segs: env.c.elem_inv.setdefault(s.seq.get_id(), []).append(lambda e: [lt(0, x.vlen(e.lines))]); env.c.keep.append(s.seq)
    def rowh(it_, this, args, node):
        l = it.load(args[0]) if isinstance(args[0], LV) else args[0]
        it.c.stats.modular.add('vertical_position'); r = it.S.ufv('c_stl_row', T_INT, l.vertical_position); it.c.assume(z3.And(r >= -24000, r <= 24000)); return r
    env.hook('vertical_position', rowh)
    def tch(it_, this, args, node):
        p, t, q = [it.load(a) if isinstance(a, LV) else a for a in args]
        it.c.stats.modular.add('put_timecode')
        if it.c.branch(uf('c_stl_timecode.throws', 'bool', it.S.flat([t, q]))): raise CppThrow(NORATE, (), '')
        r = it.S.ufv('c_stl_timecode', BLOB, t, q); it.c.assume(z3.Length(r) == 4)
        b = it.load_nocheck(p.lv); env.c.oblige('room for a time code', conj(le(0, p.off), le(add(p.off, 4), b.size))); it.store(p.lv, Buf(b.size, b.writes + ((p.off, 4, ('bytes', r)),)))
    env.hook('put_timecode', tch)
    env.modular('sub::utf16_to_iso6937', 'isoenc', T_STR, this=False)
    tables = env.var('tables', ('rec', TAB), Rec(TAB, {}))
    env.spec(blocks(x, subs, fps)); out = env.call('make_tti_blocks', None, [subs, tables, fps]); env.compare('make_tti_blocks', out)
def tasks():
    T = ['stl_binary_writer', 'sub_time', 'rational', 'stl_binary_tables']
    return [Task('row', T, t_row, 60), Task('blocks', T, t_blocks, 300)] + [Task('time code at %d/%d' % r, T, t_timecode(r), 60) for r in ((23976, 1000), (24000, 1000), (25000, 1000), (30000, 1000))]

# ---------------------------------------------------------------- replay
SAMPLE = ['Hello', 'a', ' ', 'x', 'W', 'caf\xc3\xa9', '\xc3\xbc', '\xe2\x82\xac', '\xc2\xa3', '\xc3\x9f', 'Gr\xc3\xbc\xc3\x9fe', '1 2 3', '$', '#', '\xe2\x99\xaa', '\xe6\xbc\xa2', '\xf0\x9f\x98\x80', '\xe2\x80\x99', '\xe2\x80\x94', '', 'The quick brown fox', "it's", '-']
RATES = [Fraction(23976, 1000), Fraction(24), Fraction(25), Fraction(30)]
def rtxt(rng):
    k = rng.random()
    if k < .003: return rng.choice(['n', 'ab c']) * rng.choice([200, 600, 900, 2000, 7000])
    if k < .1: return 'n' * rng.choice([100, 109, 110, 111, 112, 113, 222, 223, 224, 225, 335, 336, 500])
    return ''.join(rng.choice(SAMPLE) for _ in range(rng.choice([0, 1, 1, 2, 3, 8, 40] if k < .3 else [1, 2])))
def rtim(rng):
    s = rng.choice([rng.randint(0, 59), rng.randint(0, 7200), 59, 3599, 3600, 86399, rng.randint(0, 200000)])
    n, d = rng.choice([(24, 1), (25, 1), (30, 1), (1000, 1), (1000, 1), (24000, 1001), (30000, 1001), (23976, 1000), (100, 1), (12, 1)])
    top = -(-n // d); f = rng.choice([0, top - 1, rng.randrange(top)])
    return tm(s, f, rat(n, d)) if rng.random() < .97 else tm(s, f)
def rsub(rng):
    base = rng.randint(0, 22); ls = []
    style = rng.randrange(4); ref = rng.choice([None, 0, 1, 2, 3])
    for k in range(rng.choice([1, 1, 2, 2, 3, 6])):
        if style == 0: v = vpos(line=base + k * rng.choice([1, 1, 2]), lines=rng.choice([None, 23, 23, 12, 11]), ref=ref)
        elif style == 1: v = vpos(prop=rng.choice([rng.random(), k / 23, rng.randint(0, 23) / 23, 0.0, 0.5, 0.9, -0.2, 1.1]), ref=ref)
        elif style == 2: v = vpos(prop=rng.choice([None, rng.random()]), line=rng.choice([None, 3]), lines=rng.choice([None, 10]), ref=rng.choice([None, 0, 1, 2, 3]))
        else: v = gens.rvpos(rng)
        ps = [Rec('sub::Block', {'text': rtxt(rng), 'font': none(T_STR), 'font_size': fontsize(), 'effect': none(EFF), 'effect_colour': none(COL), 'colour': gens.rcol(rng), 'bold': rng.random() < .2, 'italic': rng.random() < .35, 'underline': rng.random() < .35}) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5]))]
        ls.append(Rec('sub::Line', {'horizontal_position': gens.rhpos(rng), 'vertical_position': v, 'blocks': vec(BLK, ps)}))
    return Rec('sub::Subtitle', {'from': rtim(rng), 'to': rtim(rng), 'lines': vec(LINE, ls), 'fade_up': none(TIME), 'fade_down': none(TIME)})
def rsubs(rng):
    b = gens.big(rng, .008)
    if b:
        some = [rsub(rng) for _ in range(4)]
        return vec(SUBT, [rng.choice(some) for _ in range(b)])
    return vec(SUBT, [rsub(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 7]))])
def rname(rng, room): return ''.join(rng.choice(SAMPLE[:12] + ['Title', 'me@example.com', '+44']) for _ in range(rng.randint(0, 4)))[:room]
def rmeta(rng, exact):
    """the metadata: eight strings, the revision and four more"""
    t = [rname(rng, 32) for _ in range(6)] + [rng.choice(['180130', '      ', '990101']) for _ in range(2)]; l = [rng.choice(['GBR', 'USA', 'xyz'])] + [rname(rng, 32) for _ in range(3)]
    if not exact:
        for q in range(rng.choice([0, 1, 1, 2])):
            w = rng.choice([t, l]); w[rng.randrange(len(w))] = rng.choice(['', 'x', 'x' * 31, 'x' * 32, 'x' * 33, 'x' * 40, '123456', '12345', 'ABCD', 'AB', 'ABC', '1234567', '\xc3\xa9' * 16, '\xc3\xa9' * 17])
    return t, rng.choice([0, 1, 9, 10, 42, 99] + ([100, 101, 1000] if not exact else [])), l
def op(subs, fps, lang, t, rev, l): return 'stlwrite %s %.9g %d %s %d %s' % (toks(subs), float(fps), lang, ' '.join(map(hexs, t)), rev, ' '.join(map(hexs, l)))
def show(v): return ''.join('%02x' % ord(c) for c in v)
def cases(rng, n, mined):
    while True:
        subs, fps = rsubs(rng), rng.choice(RATES); lang = rng.randrange(100); t, rev, l = rmeta(rng, True)
        try: e = conc(blocks, subs, fps)
        except OutOfScope: continue
        def judge(g, e=e):
            if e[0] == 'throw': return None if g[0] == 'throw' and g[1] == e[1] else 'expected %s, got %s' % (e[1], str(g[:2])[:200])
            if g[0] == 'throw': return 'unexpected exception %s: %s' % (g[1], str(g[2].get('what', ''))[:200])
            if g[0] != 'ret': return str(g)[:300]
            got = g[1][0][1024:]; want = [s.v for s in e[1].segs]
            if len(got) != 128 * len(want): return '%d bytes of blocks expected, got %d' % (128 * len(want), len(got))
            for k, b in enumerate(want):
                if got[128 * k:128 * k + 128] != b: return 'block %d expected %s, got %s' % (k, show(b), show(got[128 * k:128 * k + 128]))
        yield Case(op(subs, fps, lang, t, rev, l), judge, 'written at %s: %s' % (float(fps), str(js(subs))[:400]))
