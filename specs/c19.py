"""C19: the dump of a reader."""
from .common import *
from .c02 import spec_print
from .c04 import spec_collect
from . import gens, c07, c08, c10, c11, c14
from vc.check import Case
CASES = 2500
META = ('vec', ('pair', T_STR, T_STR)); SUBS = ('vec', SUBT)
REF = {TOP_OF_SCREEN: 'top', VCENTRE: 'centre', BOTTOM_OF_SCREEN: 'bottom', TOP_OF_SUBTITLE: 'top of subtitle'}

# ---------------------------------------------------------------- contract
def time_str(x, t): return x.fn('time_str', T_STR, spec_print, t)
def position(x, v):
    """what is said about where a line is"""
    if x.has(v.proportional): o = x.cat(x.real_str(v.proportional.val), ' of screen')
    elif x.has(v.line) and x.has(v.lines): o = x.cat(x.cat(x.int_str(v.line.val), ' lines of '), x.int_str(v.lines.val))
    else: o = ''
    if x.has(v.reference):
        o = x.cat(o, ' from ')
        for k, n in REF.items():
            if x.is_(v.reference.val, k): o = x.cat(o, n); break
    return o
def change(x, was, now, tag):
    if x.b(now): return '' if x.b(was) else '<%s>' % tag
    return '</%s>' % tag if x.b(was) else ''
def dump(x, metadata, subs):
    st = State(i=0, out=''); n = x.vlen(metadata)
    M = x.loop('metadata', st, inv=lambda s: [le(0, s.i), le(s.i, n)], variant=lambda s: sub(n, s.i))
    while True:
        yield M
        if not x.is_lt(st.i, n): break
        m = x.vget(metadata, st.i); st.i = x.add(st.i, 1)
        for p in (m.first, ': ', m.second, '\n'): st.out = x.cat(st.out, p)
    a = State(i=0, out=st.out); n = x.vlen(subs)
    S_ = x.loop('subtitles', a, inv=lambda s: [le(0, s.i), le(s.i, n)], variant=lambda s: sub(n, s.i))
    while True:
        yield S_
        if not x.is_lt(a.i, n): break
        s = x.vget(subs, a.i); o = a.out
        for p in ('Subtitle ', x.int_str(a.i), ' at ', time_str(x, s.f['from']), ' -> ', time_str(x, s.to), '\n'): o = x.cat(o, p)
        b = State(j=0, out=o); nl = x.vlen(s.lines)
        L = x.loop('lines', b, inv=lambda s: [le(0, s.j), le(s.j, nl)], variant=lambda s: sub(nl, s.j))
        while True:
            yield L
            if not x.is_lt(b.j, nl): break
            l = x.vget(s.lines, b.j)
            c = State(k=0, out=x.cat(x.cat(x.cat(b.out, '\t'), position(x, l.vertical_position)), '\t'), italic=False, underline=False); nb = x.vlen(l.blocks)
            B = x.loop('pieces', c, inv=lambda s: [le(0, s.k), le(s.k, nb)], variant=lambda s: sub(nb, s.k))
            while True:
                yield B
                if not x.is_lt(c.k, nb): break
                p = x.vget(l.blocks, c.k); c.k = x.add(c.k, 1)
                c.out = x.cat(x.cat(x.cat(c.out, change(x, c.italic, p.italic, 'i')), change(x, c.underline, p.underline, 'u')), p.text)
                c.italic, c.underline = p.italic, p.underline
            b.out = x.cat(x.cat(x.cat(c.out, change(x, c.italic, False, 'i')), change(x, c.underline, False, 'u')), '\n')
            b.j = x.add(b.j, 1)
        a.out = b.out; a.i = x.add(a.i, 1)
    return a.out

# ---------------------------------------------------------------- proof
def t_dump(env):
    x = env.x; it = env.it
    metadata = env.fresh(META, 'metadata'); subs = env.fresh(SUBS, 'subs'); raw = env.fresh(('vec', RAW), 'raw'); asked = []
    reader = env.var('reader', 'sub::Reader'); it.store(reader.sub(('f', '_subs')), raw) if False else None
    env.hook('sub::Reader::metadata', lambda it, this, args, node: metadata)
    env.hook('sub::Reader::subtitles', lambda it, this, args, node: raw)
    def collect(it_, this, args, node):
        v = it.load(args[0]) if isinstance(args[0], LV) else args[0]
        env.c.oblige('the subtitles of the reader are collected', it.S.eq(v, raw)); it.c.stats.modular.add('sub::collect'); return subs
    env.hook('sub::collect', collect)
    def put(it_, this, args, node):
        t = it.load(args[1]) if isinstance(args[1], LV) else args[1]; o = args[0]; cur = it.load(o)
        if not (isinstance(t, Rec) and t.t == 'sub::Time'): raise ToolLimit('operator<<')
        it.c.stats.modular.add('sub::operator<<(Time)')
        it.store(o, cur.with_('text', x.cat(cur.f['text'], it.S.ufv('c_time_str', T_STR, t)))); return o
    env.hook('sub::operator<<', put)
    o = env.var('o', 'std::ostream', Rec('ostream', {'text': '', 'w': 0, 'fill': ' '}))
    env.spec(dump(x, metadata, subs))
    out = env.call('sub::dump', None, [Ptr(lv=reader), o])
    env.compare('dump', out, effects=[('printed text', lambda: env.it.load(o).f['text'], lambda: env.prod.spec_out[1])], result=False)
def tasks(): return [Task('dump', ['util', 'sub_time'], t_dump, 200)]

# ---------------------------------------------------------------- replay
def rtext(rng): return ''.join(rng.choice(['Hello', 'a', ' ', '<i>', '\n', '\xc3\xa9', '', 'x.y', 'long text ' * 9]) for _ in range(rng.randrange(4)))
def cases(rng, n, mined):
    while True:
        if rng.random() < .6:
            raws = gens.raw_list(rng, rng.choice([0, 1, 2, 3, 5, 8, 14]), mined)
            raws = [r.with_('italic', rng.random() < .4).with_('underline', rng.random() < .3) for r in raws]
            m = {rtext(rng): rtext(rng) for _ in range(rng.choice([0, 0, 1, 3]))}
            c = conc(spec_collect, vec(RAW, raws))
            if c[0] == 'throw': yield Case('dumpraw %d %s%s' % (len(m), ''.join('%s %s ' % (hexs(a), hexs(b)) for a, b in m.items()), toks(vec(RAW, raws))), c, 'dump of incomparable times'); continue
            md = vec(META[1], [Rec('pair', {'first': k, 'second': m[k]}) for k in sorted(m)])
            yield Case('dumpraw %d %s%s' % (len(m), ''.join('%s %s ' % (hexs(a), hexs(b)) for a, b in m.items()), toks(vec(RAW, raws))), conc(dump, md, c[1]), 'dump of %d pieces' % len(raws))
        else:
            k = rng.choice(['srt', 'vtt', 'stltext', 'stlbin'])
            if k == 'stlbin':
                t = c14.rfile(rng); e = conc(c14.read, t)
                if e[0] == 'throw': continue
                h = e[1]; mm = c14.meta(Ops(), lambda f: h[f]); raws = h['_subs']
            else:
                g = dict(srt=c07, vtt=c08, stltext=c11)[k]; t = '\n'.join(g.rfile(rng, mined)) + '\n'
                e = conc(g.spec_read, lines_of(t, 's')); mm = {}
                if e[0] == 'throw' or '\0' in t: continue
                raws = e[1]
            c = conc(spec_collect, raws)
            if c[0] == 'throw': continue
            yield Case('dump %s %s' % (k, hexs(t)), conc(dump, vec(META[1], [Rec('pair', {'first': a, 'second': mm[a]}) for a in sorted(mm)]), c[1]), 'dump of %s %r' % (k, t[:200]))
