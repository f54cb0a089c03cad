"""C12: the header of a written EBU STL file."""
from .common import *
from . import gens, c13
from .c13 import BLOBS, NORATE, hook_tables
from .c15 import LC, DFC, encode as tab_encode, CLS as TAB
from vc.prod import Root, Ptr
from vc.check import Case
CASES = 2500
REFUSED = 'sub::ProgrammingError'
# metadata, in the order write_stl_binary is given it: name, offset in the header, room there (None: exactly the room)
TITLES = [('original programme title', 16, 32), ('original episode title', 48, 32), ('translated programme title', 80, 32), ('translated episode title', 112, 32),
          ('translator name', 144, 32), ('translator contact details', 176, 32), ('creation date', 224, None, 6), ('revision date', 230, None, 6)]
TRAILER = [('country of origin', 274, None, 3), ('publisher', 277, 32), ('editor name', 309, 32), ('editor contact details', 341, 32)]

# ---------------------------------------------------------------- contract
def rate_code(x, fps):
    """C15: the code for one of the four rates"""
    for c, r in DFC:
        if abs(fps - r) < Fraction(1, 1000): return c
    return 'STL25.01'
def dfc(x, fps): return x.fn('stl_dfc', T_STR, rate_code, fps)
def language_code(x, l): return x.fn('stl_lang', T_STR, lambda x, l: tab_encode(x, LC, l), l, exc=REFUSED)
def longest_line(x, subs):
    """the bytes of the longest line"""
    n = x.vlen(subs); st = State(i=0, most=0); ok = lambda s: [le(0, s.most), le(s.most, (1 << 31) - 1)]
    S_ = x.loop('subtitles', st, inv=lambda s: [le(0, s.i), le(s.i, n)] + ok(s), variant=lambda s: sub(n, s.i))
    while True:
        yield S_
        if not x.is_lt(st.i, n): return st.most
        ls = x.vget(subs, st.i).lines; nl = x.vlen(ls); st.i = x.add(st.i, 1)
        a = State(j=0, most=st.most)
        L = x.loop('lines', a, inv=lambda s: [le(0, s.j), le(s.j, nl)] + ok(s), variant=lambda s: sub(nl, s.j))
        while True:
            yield L
            if not x.is_lt(a.j, nl): break
            bs = x.vget(ls, a.j).blocks; nb = x.vlen(bs); a.j = x.add(a.j, 1)
            b = State(k=0, t=0)
            B = x.loop('pieces', b, inv=lambda s: [le(0, s.k), le(s.k, nb), le(0, s.t), le(s.t, (1 << 31) - 1)], variant=lambda s: sub(nb, s.k),
                       given=lambda s: [z3.Implies(zbool(lt(s.k, nb)), zbool(le(add(s.t, x.slen(x.vget(bs, s.k).text)), (1 << 31) - 1)))])      # a line is less than 2 GB
            while True:
                yield B
                if not x.is_lt(b.k, nb): break
                b.t = x.add(b.t, x.slen(x.vget(bs, b.k).text)); b.k = x.add(b.k, 1)
            a.most = x.imax(a.most, b.t)
        st.most = a.most
def padded(x, s, n): return x.cat(s, x.repeat(' ', x.sub(n, x.slen(s))))
def write(x, subs, fps, language, titles, revision, trailer):
    for f, v in [(f, v) for f, v in zip(TITLES, titles)] + [(None, revision)] + [(f, v) for f, v in zip(TRAILER, trailer)]:
        if f is None: ok = x.is_le(v, 99)
        elif f[2] is None: ok = x.is_(x.slen(v), f[3])
        else: ok = x.is_le(x.slen(v), f[2])
        if not ok: x.throw(REFUSED)
    most = yield from longest_line(x, subs)
    bl = x.fn('tti_blocks', BLOBS, c13.blocks, subs, fps, exc=NORATE); nb = x.vlen(bl); x.assume(le(nb, 99999))
    g = [(0, '850'), (3, dfc(x, fps)), (11, '0'), (12, '00'), (14, language_code(x, language))]
    for f, v in zip(TITLES, titles):
        if f[1] == 224: g.append((208, '0' * 16))
        g.append((f[1], v if f[2] is None else padded(x, v, f[2])))
    g += [(236, x.int_str(revision, 2)), (238, x.int_str(nb, 5)), (243, x.int_str(x.vlen(subs), 5)), (248, '001'), (251, x.int_str(x.imin(most, 99), 2)), (253, '23'), (255, '1'),
          (256, '00000000'), (264, '00000000'), (272, '1'), (273, '1')]
    g += [(f[1], v if f[2] is None else padded(x, v, f[2])) for f, v in zip(TRAILER, trailer)]
    o = ''
    for at, v in g: 
        if x.conc: assert len(o) == at, (at, o)
        o = x.cat(o, v)
    st = State(i=0, out=x.cat(o, '\0' * (1024 - 373)))
    W = x.loop('blocks', st, inv=lambda s: [le(0, s.i), le(s.i, nb)], variant=lambda s: sub(nb, s.i))
    while True:
        yield W
        if not x.is_lt(st.i, nb): return st.out
        st.out = x.cat(st.out, x.vget(bl, st.i)); st.i = x.add(st.i, 1)

# ---------------------------------------------------------------- proofs
def t_write(env):
    x = env.x; it = env.it
    subs = env.fresh(('vec', SUBT), 'subs'); fps = env.fresh(T_DBL, 'fps'); lang = env.fresh(('enum', 'sub::Language'), 'language')
    titles = [env.fresh(T_STR, f[0].replace(' ', '_')) for f in TITLES]; trailer = [env.fresh(T_STR, f[0].replace(' ', '_')) for f in TRAILER]
    rev = env.fresh(T_INT, 'revision'); name = env.fresh(T_STR, 'name')
    x.assume(le(0, rev)); x.assume(le(x.vlen(subs), 99999)); x.assume(z3.And(fps >= 1, fps <= 1000))
    w = Root('arg:written', None, Rec('written', {'name': '', 'text': ''}), 0); it.groots['arg:written'] = w
    hook_tables(env)
    env.hook(TAB + '::STLBinaryTables', lambda it_, this, args, node: Rec(TAB, {}))
    env.modular('make_tti_blocks', 'tti_blocks', BLOBS, exc=NORATE, this=False, pick=lambda a: [a[0], a[2]])
    h0 = it.hooks['make_tti_blocks']
    def mk(it_, this, args, node):
        r = h0(it_, this, args, node); it.c.assume(le(x.vlen(r), 99999))
        for g in r.segs: it.c.elem_inv.setdefault(g.seq.get_id(), []).append(lambda b: [le(128, x.slen(b)), le(x.slen(b), 128)]); it.c.keep.append(g.seq)      # C13: loop invariant "blocks"
        return r
    env.hook('make_tti_blocks', mk)
    def fixed(fn, n):
        h1 = it.hooks[fn]
        def h(it_, this, args, node):
            r = h1(it_, this, args, node); it.c.assume(z3.Length(r) == n); return r
        env.hook(fn, h)
    env.modular('sub::stl_frame_rate_to_dfc', 'stl_dfc', T_STR, this=False); fixed('sub::stl_frame_rate_to_dfc', 8)
    env.modular(TAB + '::language_enum_to_file', 'stl_lang', T_STR, exc=REFUSED, pick=lambda a: a[-1:]); fixed(TAB + '::language_enum_to_file', 2)
    env.spec(write(x, subs, fps, lang, titles, rev, trailer))
    out = env.call('sub::write_stl_binary', None, [subs, fps, lang] + titles + [rev] + trailer + [Rec('path', {'s': name})])
    env.compare('write_stl_binary', out, effects=[('what is in the file', lambda: it.load_nocheck(LV(w)).f['text'], lambda: env.prod.spec_out[1])], result=False)
    if out[0] == 'ret': env.c.oblige('write_stl_binary: the file is the one asked for', x.eq(it.load_nocheck(LV(w)).f['name'], name))
def tasks():
    T = ['stl_binary_writer', 'stl_binary_tables', 'stl_util', 'sub_time', 'rational']
    return [Task('write_stl_binary', T, t_write, 300)]

# ---------------------------------------------------------------- replay
def cases(rng, n, mined):
    while True:
        subs, fps = c13.rsubs(rng), rng.choice(c13.RATES); lang = rng.randrange(100); t, rev, l = c13.rmeta(rng, rng.random() < .4)
        try: e = conc(write, subs, fps, lang, t, rev, l)
        except OutOfScope: continue
        def judge(g, e=e):
            if e[0] == 'throw': return None if g[0] == 'throw' and g[1] == e[1] else 'expected %s, got %s' % (e[1], str(g[:2])[:200])
            if g[0] == 'throw': return 'unexpected exception %s: %s' % (g[1], str(g[2].get('what', ''))[:200])
            if g[0] != 'ret': return str(g)[:300]
            got, want = g[1][0], e[1]
            if len(got) != len(want): return '%d bytes expected, got %d' % (len(want), len(got))
            for k in range(1024):
                if got[k] != want[k]: return 'header differs at byte %d: expected %r, got %r' % (k, want[k:k + 32], got[k:k + 32])
        yield Case(c13.op(subs, fps, lang, t, rev, l), judge, 'written at %s: %s %s %s and %d subtitles' % (float(fps), t, rev, l, len(subs.segs)))
