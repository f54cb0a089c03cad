"""C06: SubRip inline markup."""
from .common import *
from . import gens, c09, c21
from .c09 import x_tag, TAG_EXC, tag_hook, CTX
from vc.check import Case
CASES = 6000
RX_HEX = '.*color=["\']?#([[:xdigit:]]+)["\']?'
RX_RGBA = '.*color="rgba\\([[:space:]]*([[:digit:]]+)[[:space:]]*,[[:space:]]*([[:digit:]]+)[[:space:]]*,[[:space:]]*([[:digit:]]+)[[:space:]]*,[[:space:]]*([[:digit:]]+)[[:space:]]*\\)"'
WANT = 'a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)'
STYLE = [(('<b>', '{b}'), 'bold', True), (('</b>', '{/b}'), 'bold', False), (('<i>', '{i}'), 'italic', True), (('</i>', '{/i}'), 'italic', False), (('<u>', '{u}'), 'underline', True), (('</u>', '{/u}'), 'underline', False)]

def line_frame(s, r):
    """the piece r after a line of text, with what no line of text changes taken from s"""
    f = c09.tag_frame(s, r)
    return Rec(r.t, dict(f.f, text=''))
def push_content(x, s):
    """the style applies to the text so far: deliver it as a piece"""
    if x.b(x.ne_str(s.p.text)):
        s.subs = x.push(s.subs, s.p); s.p = s.p.with_('text', '')

def font_colour(x, tag, fail):
    found, g = x.regex(RX_HEX, tag, 2)
    if x.b(found):
        n = x.slen(g[1])
        if x.is_(n, 6): return x.fn('rgb', COL, c21.from_rgb_hex, g[1], exc='sub::XMLError')
        if x.is_(n, 8): return x.fn('rgba', COL, c21.from_rgba_hex, g[1], exc='sub::XMLError')
        fail()
    found, g = x.regex(RX_RGBA, tag, 5)
    if not x.b(found): fail()
    return colour(*[x.rdiv(x.raw_int(g[k]), 255) for k in (1, 2, 3)])

def spec_line(x, number, t, p, subs, context):
    """-> (piece under construction, pieces delivered)"""
    n = x.slen(t)
    s = State(i=0, p=p, subs=subs, colours=vec(COL, [white(x)]))
    def at(*tags):
        for g in tags:
            if x.is_(x.lower(x.substr(t, s.i, len(g))), g): s.i = x.add(s.i, len(g)); return True
        return False
    def until(name, stop, acc):
        """characters up to (and consuming) stop"""
        start = s.i; q = State(i=start, acc=acc)
        L = x.loop(name, q, inv=lambda q: [le(start, q.i), disj(le(q.i, n), x.eq(q.i, start))], variant=lambda q: sub(n, q.i))
        while True:
            yield L
            if not (x.is_lt(q.i, n) and not x.is_(x.code(t, q.i), ord(stop))): break
            q.acc = x.cat(q.acc, x.ch(t, q.i)); q.i = x.add(q.i, 1)
        s.i = x.add(q.i, 1)
        return q.acc
    def fail(tag): x.throw('sub::SubripError', number, tag, WANT, context)
    L = x.loop('characters', s, inv=lambda s: [le(0, s.i), le(s.i, add(n, 1)), le(1, x.vlen(s.colours)), *[disj(neg(p.vertical_position.f[k].has), s.p.vertical_position.f[k].has) for k in ('proportional', 'reference')]], variant=lambda s: sub(add(n, 1), s.i))
    while True:
        yield L
        if not x.is_lt(s.i, n): break
        for tags, f, v in STYLE:
            if at(*tags):
                push_content(x, s); s.p = s.p.with_(f, v); break
        else:
            if at('<font'):
                push_content(x, s)
                tag = yield from until('font tag', '>', '')
                c = font_colour(x, tag, lambda: fail(tag))
                s.p = s.p.with_('colour', c); s.colours = x.push(s.colours, c)
            elif at('</font>'):
                push_content(x, s)
                if x.is_lt(1, x.vlen(s.colours)): s.colours = x.vpop(s.colours)
                s.p = s.p.with_('colour', x.vback(s.colours))
            elif at('{\\'):
                tag = yield from until('override tag', '}', '\\')
                c = Rec('sub::SSAReader::Context', dict(play_res_x=288, play_res_y=288, primary_colour=white(x), left_margin=0, right_margin=0))
                s.p = x_tag(x, s.p, tag, c)
            else:
                s.p = s.p.with_('text', x.cat(s.p.text, x.ch(t, s.i))); s.i = x.add(s.i, 1)
    s.p = s.p.with_('text', x.replace_all(s.p.text, '\xe2\x80\xab', ''))
    push_content(x, s)
    return s.p, s.subs

# ---------------------------------------------------------------- proofs
def t_line(env):
    x = env.x
    env.hook('sub::SSAReader::parse_tag', tag_hook)
    env.modular('sub::Colour::from_rgb_hex', 'rgb', COL, exc='sub::XMLError')
    env.modular('sub::Colour::from_rgba_hex', 'rgba', COL, exc='sub::XMLError')
    r = env.var('reader', 'sub::SubripReader'); p = env.var('p', 'sub::RawSubtitle'); t = env.fresh(('str',), 't'); k = env.fresh(T_INT, 'line')
    rd = env.it.load(r); old = env.it.load(p); x.assume(lt(x.slen(t), (1 << 62)))
    env.spec(spec_line(x, k, t, old, rd._subs, rd._context))
    out = env.call('sub::SubripReader::convert_line', r, [k, t, p])
    env.compare('convert_line', out, [('pieces delivered', lambda: env.it.load(r)._subs, lambda: env.prod.spec_out[1][1]), ('piece under construction', lambda: env.it.load(p), lambda: env.prod.spec_out[1][0])], result=False)
    if out[0] == 'ret': new = env.it.load(p); env.eq('convert_line changes nothing but style, size, colour and position', line_frame(old, new), new)
    env.eq('convert_line: context untouched', env.it.load(r)._context, rd._context)
def t_maybe(env):
    x = env.x
    r = env.var('reader', 'sub::SubripReader'); p = env.var('p', 'sub::RawSubtitle'); rd = env.it.load(r); old = env.it.load(p)
    s = State(p=old, subs=rd._subs)
    env.spec(gen(push_content)(x, s)); out = env.call('sub::SubripReader::maybe_content', r, [p])
    env.compare('maybe_content', out, [('pieces delivered', lambda: env.it.load(r)._subs, lambda: s.subs), ('piece', lambda: env.it.load(p), lambda: s.p)], result=False)

def tasks():
    T = ['subrip_reader', 'ssa_reader', 'colour', 'raw_subtitle']
    return [Task('convert_line', T, t_line, 250), Task('maybe_content', T, t_maybe, 60)]

# ---------------------------------------------------------------- replay
def markup(rng, mined=None):
    out = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, rng.randint(1, 14)]) if mined is None or rng.random() < .98 else rng.randint(15, 60)):
        k = rng.randrange(13)
        if k == 12 and rng.random() < .5 and len(out) > 8: out.append(rng.choice(['</font>', 'word ' * 40, 'a', '<i>x</i>']))
        elif k < 4: out.append(rng.choice(['Hello', 'a', ' ', 'world ', 'caf\xc3\xa9', 'x<y', 'b>', '\xe2\x80\xab', '\xe2\x80\xababc', '{', '}', '<', '\xe2\x99\xaa', '1 < 2 > 0', '<br>', '{c:$ff}', '<bb>', '</x>', '<\xe2']))
        elif k < 8: 
            t = rng.choice([a for s in STYLE for a in s[0]])
            out.append(''.join(c.upper() if rng.random() < .15 else c for c in t))
        elif k < 10:
            c = rng.choice(['#%06x' % rng.getrandbits(24), '#%06X' % rng.getrandbits(24), '#%08X' % rng.getrandbits(32), '#%06x' % rng.getrandbits(24)])
            q = rng.choice(['"', '"', "'", ''])
            out.append(rng.choice(['<font color=%s%s%s>', '<font color=%s%s%s>', '<FONT color=%s%s%s>', '<font face="x" color=%s%s%s>', '<font face="' + 'Long Name ' * rng.choice([1, 3, 8, 30]) + '" color=%s%s%s>', '<Font color=%s%s%s size=3>']) % (q, c, q))
        elif k == 10: out.append(rng.choice(['</font>', '</font>', '</FONT>', '</font']))
        elif k == 11: out.append(rng.choice(['<font color="rgba(%d, %d,%d,%d)">' % tuple(rng.randint(0, 255) for _ in range(4)), '<font color="rgba( 1 , 2 , 3 , 4 )">']))
        elif rng.random() < .8: out.append('{' + c09.rtag(rng, mined if rng.random() < .1 else None) + rng.choice(['}', '}', '}', '']))
        else: out.append(rng.choice(['<font color="red">', '<font>', '<font color="#12345">', '<font color="rgb(1,2,3)">', '<font', '<font color="#abcdef"', '{\\an8}', '{\\i1', '<fontcolor=#112233>', '<font color="rgba(1,2,3)">']))
    return ''.join(out)
def valid(t):
    if '\0' in t or '\n' in t or '\r' in t or t == '' or '\xef\xbb\xbf' in t: raise OutOfScope('one line of text')
    return t
def cue(rng, mined):
    ls = [valid(markup(rng, mined)) for _ in range(rng.choice([1, 1, 2, 3]))]
    return ls
def first(x, lines):
    """a file holding one cue"""
    from . import c07
    return c07.spec_read(x, ['1', '00:00:01,000 --> 00:00:02,500'] + lines)
def cases(rng, n, mined):
    from . import c07
    while True:
        yield c07.file_case('\n'.join(['1', '00:00:01,000 --> 00:00:02,500'] + cue(rng, mined)) + '\n', 's', 'cue text')
