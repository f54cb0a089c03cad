"""C08: reading WebVTT files."""
from .common import *
from . import gens, c07
from .c07 import keep, times_of, time_hook, reader0, err_judge, messy, stamp
from vc.check import Case
CASES = 6000
HEADER, DATA, SUBTITLE, NOTE = 0, 1, 2, 3

def spec_read(x, src):
    r = raw_default(x)
    r = r.with_('vertical_position', r.vertical_position.with_('line', some(T_INT, 0)).with_('reference', some(VREF, TOP_OF_SUBTITLE)))
    s = State(k=0, state=HEADER, rs=r, subs=Vec(RAW), context=Vec(T_STR))
    L = x.loop('lines', s, inv=lambda q: [le(0, q.k), le(0, q.state), le(q.state, 3), q.rs.vertical_position.line.has, le(0, x.vlen(q.context)), le(x.vlen(q.context), 5)])
    row = lambda n: s.rs.with_('vertical_position', s.rs.vertical_position.with_('line', some(T_INT, n)))
    while True:
        yield L
        o = x.line(src, s.k); s.k = x.add(s.k, 1)
        if not x.has(o): break
        l = nobom(x, x.trim(o.val, '\n\r', 'right'))
        s.context = keep(x, s.context, l)
        if x.is_(s.state, HEADER):
            if not x.b(x.starts(l, 'WEBVTT')): x.throw('sub::WebVTTHeaderError')
            s.state = DATA
        elif x.is_(s.state, DATA):
            if x.b(x.starts(l, 'NOTE')): s.state = NOTE
            elif x.is_le(0, x.find(l, '-->')):
                f, t = times_of(x, src, s.k, l, s.context, '.', lambda saw, want, ctx: x.throw('sub::WebVTTError', saw, want, ctx))
                s.rs = row(0).with_('from', f).with_('to', t); s.state = SUBTITLE
        elif x.is_(s.state, SUBTITLE):
            if x.is_(l, ''): s.state = DATA
            else:
                parts = x.split_lit(l, '\xe2\x80\xa8'); q = State(j=0)
                P = x.loop('parts', q, inv=lambda q: [le(0, q.j), le(q.j, x.vlen(parts)), s.rs.vertical_position.line.has], variant=lambda q: sub(x.vlen(parts), q.j))
                while True:
                    yield P
                    if not x.is_lt(q.j, x.vlen(parts)): break
                    s.rs = s.rs.with_('text', x.vget(parts, q.j)); s.subs = x.push(s.subs, s.rs)
                    s.rs = row(x.add(s.rs.vertical_position.line.val, 1)); q.j = x.add(q.j, 1)
        elif x.is_(l, ''): s.state = DATA
    return s.subs

def t_read(env):
    x = env.x
    env.hook('sub::SubripReader::convert_time', time_hook); hook_bom(env)
    r = env.var('reader', 'sub::WebVTTReader', reader0(env, 'sub::WebVTTReader')); src = env.linesource()
    env.spec(spec_read(x, src)); out = env.call('sub::WebVTTReader::read', r, [src])
    env.compare('read', out, [('subtitles', lambda: env.it.load(r)._subs, lambda: env.prod.spec_out[1])], result=False)
def tasks(): return [Task('read', ['web_vtt_reader'], t_read, 300)]

def rtimeline(rng):
    if rng.random() < .05: return rng.choice(['%s --> %s line:0', '%s --> %s align:left size:50% position:1% line:2', '00:01.000 --> 00:02.000', '%s -->', '--> %s', '%s-->%s', 'x --> y', '%s --> y', '-->', '%s,000 --> %s']).replace('%s', stamp(rng, '.'))
    return c07.rtimeline(rng, '.') if rng.random() < .15 else '%s --> %s%s' % (stamp(rng, '.'), stamp(rng, '.'), rng.choice(['', '', '', ' ']))
def rtext(rng, mined):
    if rng.random() < .15 and mined and mined['strs']: return rng.choice(mined['strs']).replace('\n', ' ').replace('\0', ' ').replace('\r', ' ')
    return rng.choice(['Hello', 'World', 'caf\xc3\xa9', '- yes', '12', ' ', '  lead', 'a\xe2\x80\xa8b', '\xe2\x80\xa8', 'x\xe2\x80\xa8\xe2\x80\xa8y', '<i>it</i>', '<c.red>x', 'NOTE not a note', 'a --> b', '-->', 'WEBVTT', 'STYLE', 'trail  ', '&amp;', '<00:00:01.000>k'])
def rfile(rng, mined):
    out = [rng.choice(['WEBVTT', 'WEBVTT', 'WEBVTT', 'WEBVTT - title', 'WEBVTT\tx', 'WEBVTTX'] if rng.random() < .96 else ['', 'webvtt', ' WEBVTT', '1', 'WEBVT'])]
    if rng.random() < .2: out.append(rng.choice(['X-TIMESTAMP-MAP=LOCAL:00:00:00.000', 'Kind: captions', 'Language: en']))
    out += [''] * rng.choice([1, 1, 1, 0, 2])
    b = gens.big(rng)
    for n in range(b):
        out += [str(n + 1)] * rng.choice([0, 1]) + ['%s --> %s' % (stamp(rng, '.'), stamp(rng, '.'))] + [rng.choice(['Hello', '<i>it</i>', 'Line %d' % n, 'a\xe2\x80\xa8b' * rng.choice([1, 1, 12])]) for _ in range(rng.choice([1, 1, 2, 3, 12, 40] if b < 100 else [1, 2]))] + ['']
    for n in range(0 if b and rng.random() < .8 else rng.choice([0, 1, 2, 2, 3, rng.randint(0, 6)])):
        k = rng.randrange(8)
        if k == 0: out += [rng.choice(['NOTE', 'NOTE a note', 'NOTES'])] + [rng.choice(['text', '00:00:01.000 --> 00:00:02.000', 'NOTE', ' ']) for _ in range(rng.randint(0, 2))] + [''] * rng.randint(0, 2)
        elif k == 1: out += ['STYLE', '::cue { color: red }', '']
        else:
            if rng.random() < .4: out.append(rng.choice([str(n + 1), 'id', 'intro', ' ']))
            out.append(rtimeline(rng))
            out += [rtext(rng, mined) for _ in range(rng.choice([1, 1, 2, 3, 0, rng.randint(0, 4)]))]
            out += [''] * rng.choice([1, 1, 1, 2, 0])
    if rng.random() < .05 and out: del out[rng.randrange(len(out))]
    return out
def cases(rng, n, mined):
    while True: yield c07.file_case(messy(rng, rfile(rng, mined)), rng.choice('sf'), 'WebVTT file', 'vtt', spec_read)
