"""C10: SSA / ASS files."""
from .common import *
from . import gens, c07, c09
from .c09 import CTX, TAG_EXC, x_colour
from .c07 import reader0, err_judge
from vc.check import Case
CASES = 4000
INFO, STYLES, EVENTS = 0, 1, 2
OCOL = ('opt', COL)
SHADOW = 1
STYLE = ('rec', 'Style')

# ---------------------------------------------------------------- contracts
def style_default(x):
    return Rec('Style', dict(name='', font_name=none(T_STR), font_size=72, primary_colour=white(x), back_colour=none(COL), bold=False, italic=False, underline=False, effect=none(EFF),
               horizontal_reference=1, vertical_reference=BOTTOM_OF_SCREEN, vertical_margin=0, left_margin=0, right_margin=0))
def style_colour(x, c):
    """&Hbbggrr, or the same as a decimal number"""
    if x.is_lt(0, x.slen(c)) and x.is_(x.code(c, 0), ord('&')): return x_colour(x, c)
    i = x.raw_int(c)
    return colour(*[x.rdiv(x.byte(i, k), 255) for k in range(3)])
def x_style_colour(x, c): return x.fn('ssa_style_colour', COL, style_colour, c, exc='sub::SSAError')
INTS = {'Fontsize': 'font_size', 'MarginV': 'vertical_margin', 'MarginL': 'left_margin', 'MarginR': 'right_margin'}
FLAGS = {'Bold': 'bold', 'Italic': 'italic', 'Underline': 'underline'}
def one_of(x, v, *ks): return any(x.is_(v, k) for k in ks)
def style_of(x, fmt, line):
    keys, vals = x.split(fmt, ','), x.split(line, ',')
    n = x.vlen(vals)
    if not x.is_(x.vlen(keys), n): x.throw('sub::ProgrammingError')
    s = State(i=0, style=style_default(x))
    L = x.loop('fields', s, inv=lambda s: [le(0, s.i), le(s.i, n)], variant=lambda s: sub(n, s.i), count='i')
    while True:
        yield L
        if not x.is_lt(s.i, n): break
        k, v = x.trim(x.vget(keys, s.i)), x.trim(x.vget(vals, s.i)); t = s.style
        if x.is_(k, 'Name'): t = t.with_('name', v)
        elif x.is_(k, 'Fontname'): t = t.with_('font_name', some(T_STR, v))
        elif x.is_(k, 'PrimaryColour'): t = t.with_('primary_colour', x_style_colour(x, v))
        elif x.is_(k, 'BackColour'): t = t.with_('back_colour', some(COL, x_style_colour(x, v)))
        elif x.is_(k, 'BorderStyle'):
            if x.is_(v, '1'): t = t.with_('effect', some(EFF, SHADOW))
        elif x.is_(k, 'Alignment'):
            t = t.with_('vertical_reference', TOP_OF_SCREEN if one_of(x, v, '7', '8', '9') else VCENTRE if one_of(x, v, '4', '5', '6') else BOTTOM_OF_SCREEN)
            t = t.with_('horizontal_reference', 0 if one_of(x, v, '1', '4', '7') else 2 if one_of(x, v, '3', '6', '9') else 1)
        else:
            for a in FLAGS:
                if x.is_(k, a): t = t.with_(FLAGS[a], x.eq(v, '-1')); break
            else:
                for a in INTS:
                    if x.is_(k, a): t = t.with_(INTS[a], x.raw_int(v)); break
        s.style = t; s.i = x.add(s.i, 1)
    return s.style
def x_style(x, fmt, line):
    return x.fn('ssa_style', STYLE, style_of, fmt, line, exc=['sub::ProgrammingError', 'sub::SSAError'])

def time_of(x, t):
    b = x.split(t, ':.')
    if not x.is_(x.vlen(b), 4): x.throw('sub::ProgrammingError')
    h, m, s, cs = [x.raw_int(x.vget(b, k)) for k in range(4)]
    if x.conc: x.assume(abs(cs) < 200000000 and abs(h) <= 590000 and abs(m) <= 20000 and abs(s) <= 100000 , 'time fits')
    return from_hms_c(x, h, m, s, x.mul(cs, 10))
def x_time(x, t): return x.fn('ssa_time', TIME, time_of, t, exc='sub::ProgrammingError')
def x_line(x, base, text, c): return x.fn('ssa_line', ('vec', RAW), c09.spec_line, base, text, c, exc=TAG_EXC)

def text_bits(x, body, m):
    """the fields of an event; the last one of m keeps its commas"""
    s = State(ev=x.split(body, ','))
    L = x.loop('commas', s, inv=lambda s: [le(1, x.vlen(s.ev))], variant=lambda s: x.vlen(s.ev))
    while True:
        yield L
        n = x.vlen(s.ev)
        if not x.is_lt(m, n): break
        last = x.vback(s.ev); ev = x.vpop(s.ev)
        s.ev = x.push(x.vpop(ev), x.cat(x.vback(ev), x.cat(',', last)))
    return s.ev

def event(x, s, body):
    """one dialogue event -> more pieces"""
    m = x.vlen(s.fmt)
    if x.is_(m, 0): x.throw('sub::ProgrammingError')
    ev = yield from text_bits(x, body, m)
    n = x.vlen(ev)
    if not x.is_(m, n): x.throw('sub::ProgrammingError')
    e = State(i=0, sub=raw_default(x), style=none(STYLE), lm=0, rm=0)
    L = x.loop('event fields', e, inv=lambda e: [le(0, e.i), le(e.i, n)], variant=lambda e: sub(n, e.i), count='i')
    while True:
        yield L
        if not x.is_lt(e.i, n): break
        k = x.vget(s.fmt, e.i); v = x.trim(x.vget(ev, e.i)); r = e.sub; e.i = x.add(e.i, 1)
        centred = lambda: x.has(r.vertical_position.reference) and x.is_(r.vertical_position.reference.val, VCENTRE)
        if x.is_(k, 'Start'): e.sub = r.with_('from', x_time(x, v))
        elif x.is_(k, 'End'): e.sub = r.with_('to', x_time(x, v))
        elif x.is_(k, 'Style'):
            v = x.trim(v, '*', 'left')
            f, t = x.map_find(s.styles, v)
            if not x.b(f): f, t = x.map_find(s.styles, 'Default')
            if not x.b(f): continue
            e.style = some(STYLE, t); e.lm, e.rm = t.left_margin, t.right_margin
            v = r.vertical_position.with_('reference', some(VREF, t.vertical_reference))
            if not x.is_(t.vertical_reference, VCENTRE): v = v.with_('proportional', some(T_DBL, x.rdiv(t.vertical_margin, s.y)))
            e.sub = r.with_('font', t.font_name).with_('font_size', fontsize(prop=x.rdiv(t.font_size, s.y))).with_('colour', t.primary_colour).with_('effect_colour', t.back_colour).with_('bold', t.bold).with_('italic', t.italic) \
                .with_('underline', t.underline).with_('effect', t.effect).with_('horizontal_position', r.horizontal_position.with_('reference', t.horizontal_reference)).with_('vertical_position', v)
        elif x.is_(k, 'MarginV'):
            if not x.is_(v, '0') and not centred(): e.sub = r.with_('vertical_position', r.vertical_position.with_('proportional', some(T_DBL, x.rdiv(x.raw_real(v), s.y))))
        elif x.is_(k, 'MarginL'):
            if not x.is_(v, '0'): e.lm = x.raw_int(v)
        elif x.is_(k, 'MarginR'):
            if not x.is_(v, '0'): e.rm = x.raw_int(v)
        elif x.is_(k, 'Text'):
            c = Rec('sub::SSAReader::Context', dict(play_res_x=s.x, play_res_y=s.y, primary_colour=e.style.val.primary_colour if x.has(e.style) else white(x), left_margin=e.lm, right_margin=e.rm))
            s.subs = x.extend(s.subs, x_line(x, r, v, c))

def spec_read(x, src):
    s = State(k=0, part=INFO, x=288, y=288, styles=MapV(T_STR, STYLE), sfmt='', fmt=Vec(T_STR), subs=Vec(RAW))
    L = x.loop('lines', s, inv=lambda q: [le(0, q.k), le(0, q.part), le(q.part, 2), lt(0, q.x), lt(0, q.y)])
    def res(v): x.assume(x.lt(0, v), 'script resolution is positive'); return v
    while True:
        yield L
        o = x.line(src, s.k); s.k = x.add(s.k, 1)
        if not x.has(o): break
        l = x.trim(nobom(x, o.val))
        if x.b(x.starts(l, ';')) or x.is_(l, ''): continue
        if x.b(x.starts(l, '[')):
            if x.is_(l, '[Script Info]'): s.part = INFO
            elif one_of(x, l, '[V4 Styles]', '[V4+ Styles]'): s.part = STYLES
            elif x.is_(l, '[Events]'): s.part = EVENTS
            continue
        c = x.find(l, ':')
        if x.is_lt(c, 0): x.throw('sub::ProgrammingError')
        what, body = x.substr(l, 0, c), x.trim(x.substr(l, x.add(c, 1)))
        if x.is_(s.part, INFO):
            if x.is_(what, 'PlayResX'): s.x = res(x.raw_int(body))
            elif x.is_(what, 'PlayResY'): s.y = res(x.raw_int(body))
        elif x.is_(s.part, STYLES):
            if x.is_(what, 'Format'): s.sfmt = body
            elif x.is_(what, 'Style'):
                if x.is_(s.sfmt, ''): x.throw('sub::ProgrammingError')
                t = x_style(x, s.sfmt, body); s.styles = x.map_put(s.styles, t.name, t)
        elif x.is_(what, 'Format'):
            f = x.split(body, ','); n = x.vlen(f); q = State(j=0, fmt=f)
            P = x.loop('format fields', q, inv=lambda q: [le(0, q.j), le(q.j, n), x.eq(x.vlen(q.fmt), n)], variant=lambda q: sub(n, q.j), count='j')
            while True:
                yield P
                if not x.is_lt(q.j, n): break
                q.fmt = x.vset(q.fmt, q.j, x.trim(x.vget(q.fmt, q.j))); q.j = x.add(q.j, 1)
            s.fmt = q.fmt
        elif x.is_(what, 'Dialogue'):
            yield from event(x, s, body)
    return s.subs

# ---------------------------------------------------------------- proofs
def t_scolour(env):
    env.modular('h_colour', 'ssa_colour', COL, exc='sub::SSAError')
    st = env.fresh('Style', 'style'); c = env.fresh(('str',), 'c')
    env.spec(gen(style_colour)(env.x, c)); env.compare('Style::colour', env.call('Style::colour', st, [c]))
def t_style(env):
    env.modular('Style::colour', 'ssa_style_colour', COL, exc='sub::SSAError', this=False)
    f, l = env.fresh(('str',), 'format'), env.fresh(('str',), 'line')
    env.spec(style_of(env.x, f, l)); env.compare('Style', env.construct('Style::Style', "Style", [f, l], pred=lambda d: len(d['params']) == 2))
def t_time(env):
    hook_from_hms(env)
    t = env.fresh(('str',), 't'); r = env.var('reader', 'sub::SSAReader')
    cs = env.x.raw_int(env.x.vget(env.x.split(t, ':.'), 3)); env.x.assume(conj(le(-200000000, cs), le(cs, 200000000)))
    env.spec(gen(time_of)(env.x, t)); env.compare('parse_time', env.call('sub::SSAReader::parse_time', r, [t]))
def t_read(env):
    x = env.x
    hook_bom(env)
    env.modular('sub::SSAReader::parse_time', 'ssa_time', TIME, exc='sub::ProgrammingError', this=False)
    env.modular('sub::SSAReader::parse_line', 'ssa_line', ('vec', RAW), exc=TAG_EXC)
    env.modular('Style::Style', 'ssa_style', STYLE, exc=['sub::ProgrammingError', 'sub::SSAError'], this=False)
    r = env.var('reader', 'sub::SSAReader', reader0(env, 'sub::SSAReader')); src = env.linesource()
    env.spec(spec_read(x, src)); out = env.call('sub::SSAReader::read', r, [src])
    env.compare('read', out, [('subtitles', lambda: env.it.load(r)._subs, lambda: env.prod.spec_out[1])], result=False)
def tasks():
    T = ['ssa_reader', 'raw_subtitle', 'font_size']
    return [Task('style colour', T, t_scolour, 60), Task('style', T, t_style, 250), Task('parse_time', T, t_time, 60), Task('read', T, t_read, 400)]

# ---------------------------------------------------------------- replay
SKEYS = ['Name', 'Fontname', 'Fontsize', 'PrimaryColour', 'SecondaryColour', 'OutlineColour', 'BackColour', 'Bold', 'Italic', 'Underline', 'StrikeOut', 'ScaleX', 'BorderStyle', 'Outline', 'Alignment', 'MarginL', 'MarginR', 'MarginV', 'Encoding', 'TertiaryColour', 'AlphaLevel']
EKEYS = ['Layer', 'Start', 'End', 'Style', 'Name', 'MarginL', 'MarginR', 'MarginV', 'Effect', 'Text']
def rcolour(rng):
    return rng.choice(['&H%08X' % rng.getrandbits(32), '&H%06X' % rng.getrandbits(24), '%d' % rng.getrandbits(24), '%d' % rng.getrandbits(24), '-1', '%d' % -rng.getrandbits(31), '&HFF', '&H00ffffff&', '0', '', 'x'] + (['&X', 'red', '&', '&HH%06X' % rng.getrandbits(24), '&H&H%06X' % rng.getrandbits(24), '&H&%06X' % rng.getrandbits(24)] if rng.random() < .1 else []))
def rsval(rng, k, n):
    return {'Name': lambda: rng.choice(['Default', 'Default', 'S%d' % n, 'Top', 'Name With Space', '*x']), 'Fontname': lambda: rng.choice(['Arial', 'Tahoma', '', 'A B']), 'Fontsize': lambda: rng.choice(['24', '72', '0', '18', '20.5', 'x', '%d' % rng.randint(1, 200)]),
            'PrimaryColour': lambda: rcolour(rng), 'BackColour': lambda: rcolour(rng), 'Bold': lambda: rng.choice(['-1', '0', '1', '-1']), 'Italic': lambda: rng.choice(['-1', '0', '1', '-1']), 'Underline': lambda: rng.choice(['-1', '0', '1']),
            'BorderStyle': lambda: rng.choice(['1', '1', '3', '0']), 'Alignment': lambda: rng.choice(['1', '2', '3', '4', '5', '6', '7', '8', '9', '10', '0', '11']), 'MarginL': lambda: rng.choice(['0', '10', '300', '%d' % rng.randint(0, 500)]),
            'MarginR': lambda: rng.choice(['0', '20', '100', '%d' % rng.randint(0, 500)]), 'MarginV': lambda: rng.choice(['0', '30', '5', '%d' % rng.randint(0, 300)])}.get(k, lambda: rng.choice(['0', '1', '&H0', 'x', '']))()
def rtime(rng):
    return rng.choice(['%d:%02d:%02d.%02d', '%d:%02d:%02d.%02d', '%d:%02d:%02d.%02d', '%d:%02d:%02d:%02d']) % (rng.choice([0, 0, 1, 9, 23, rng.randint(0, 120)]), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 99))
def sp(rng, s): return rng.choice(['', '', '', ' ', '  ', '\t']) + s + rng.choice(['', '', '', ' '])
def rfile(rng, mined):
    out = []
    odd = rng.random() < .15
    if rng.random() < .9: out.append('[Script Info]')
    if rng.random() < .5: out += rng.sample(['; comment', 'Title: foo: bar', 'ScriptType: v4.00+', 'Timer: 100.0', '', 'Style: x'], rng.randint(0, 4))
    if rng.random() < .6: out.append('PlayResX: %d' % rng.choice([384, 640, 1920, rng.randint(1, 4000)]))
    if rng.random() < .6: out.append('PlayResY:%s%d' % (rng.choice(['', ' ']), rng.choice([288, 480, 1080, rng.randint(1, 4000)])))
    keys = []; nst = 0
    if rng.random() < .92:
        out += ['', rng.choice(['[V4 Styles]', '[V4+ Styles]', '[V4+ Styles]'])]
        keys = SKEYS[:] if rng.random() < .5 else rng.sample(SKEYS, rng.randint(1, len(SKEYS)))
        if rng.random() < .3: rng.shuffle(keys)
        if 'Name' not in keys and rng.random() < .9: keys.insert(0, 'Name')
        if rng.random() < .03: keys += ['Name', 'Alignment']
        if not odd or rng.random() < .9: out.append('Format: ' + ','.join(sp(rng, k) for k in keys))
        nst = gens.big(rng, .03) or rng.choice([1, 1, 2, 3, 0])
        if rng.random() < .06: out += rng.choice([['[Other]'], ['', '[V4 Styles+]', 'Fo: o'], ['[V4 Styles]'], ['[Fonts]', 'x: y', '[V4+ Styles]'], ['[Script Info]', 'PlayResX: 1000', '[V4 Styles]']])
        for n in range(nst):
            out.append('Style:%s' % rng.choice([' ', '']) + ','.join(sp(rng, rsval(rng, k, n)) for k in keys) + (',' if odd and rng.random() < .1 else ''))
            if rng.random() < .1: out.append(rng.choice(['; x', '', 'Foo: bar', 'Dialogue: 0,0:00:01.00,0:00:02.00,,,0,0,0,,hi']))
        if rng.random() < .06: out += ['[Script Info]'] + rng.choice([['PlayResX: 900'], ['PlayResY: 450'], ['PlayResX: 100', 'PlayResY: 99'], []])
    if rng.random() < .1: out += ['', '[Fonts]', 'fontname: chaucer.ttf']
    out += ['', '[Events]'] if rng.random() < .97 else []
    ek = EKEYS[:] if rng.random() < .6 else rng.sample(EKEYS, rng.randint(2, len(EKEYS)))
    if rng.random() < .3: rng.shuffle(ek)
    if 'Text' in ek and rng.random() < .8: ek.remove('Text'); ek.append('Text')
    if 'Text' not in ek and rng.random() < .9: ek.append('Text')
    if not odd or rng.random() < .9: out.append('Format: ' + ','.join(sp(rng, k) for k in ek))
    for _ in range(gens.big(rng) or rng.choice([1, 1, 2, 3, 5])):
        def val(k):
            if k in ('Start', 'End'): return rtime(rng) if not odd or rng.random() < .95 else rng.choice(['', '0:00:01', 'x', '1.2.3.4.5', '::.'])
            if k == 'Style': return rng.choice(['Default', 'Default', '*Default', 'S0', 'S1', 'S%d' % rng.randrange(max(2, nst)), 'Top', 'Missing', '', '**S0'])
            if k.startswith('Margin'): return rng.choice(['0', '0', '0000', '10', '%d' % rng.randint(0, 400), '%d' % rng.randint(0, 5000), '0.5'])
            if k == 'Text':
                t = c09.rline(rng, mined).replace('\n', '').replace('\0', '')
                return t + rng.choice(['', '', ', with, commas', ',', ' :x', ',x,,y, z' * rng.choice([1, 4, 20])])
            return rng.choice(['0', '', 'Marked=0', '!Effect', '1'])
        out.append(rng.choice(['Dialogue', 'Dialogue', 'Dialogue', 'Dialogue', 'Dialogue', 'Comment', 'Picture', 'dialogue']) + ':' + rng.choice(['', ' ']) + ','.join(sp(rng, val(k)) if rng.random() < .3 else val(k) for k in ek))
        if rng.random() < .05: out.append(rng.choice(['; c', '', '[Other]', '[Events]', 'junk', 'Format: Start,End,Style,Text', '[V4 Styles]', 'Format: ' + ','.join(SKEYS[:3])]))
    if rng.random() < .03: del out[rng.randrange(len(out))]
    if rng.random() < .03: i = rng.randrange(len(out)); out[i] = ' ' + out[i] + '\t'
    return out
def cases(rng, n, mined):
    while True: yield c07.file_case(c07.messy(rng, rfile(rng, mined)), rng.choice('sf'), 'SSA file', 'ssa', spec_read)
