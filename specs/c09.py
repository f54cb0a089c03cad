"""C09: SSA override tags and dialogue lines."""
from .common import *
from . import gens
from vc.check import Case
CASES = 5000
CTX = ('rec', 'sub::SSAReader::Context')

# ---------------------------------------------------------------- contracts
def hp_of(x, h, c):
    """horizontal proportion that the margins give for a reference"""
    r = h.reference
    if x.is_(r, 0): p = x.rdiv(c.left_margin, c.play_res_x)
    elif x.is_(r, 1): p = x.rdiv(x.rsub(x.real(c.left_margin), x.real(c.right_margin)), x.rmul(x.real(2), x.real(c.play_res_x)))
    else: p = x.rdiv(c.right_margin, c.play_res_x)
    return hpos(r, p)
def hpos_of(x, s, c): return s.with_('horizontal_position', hp_of(x, s.horizontal_position, c))
def x_hpos(x, s, c): return s.with_('horizontal_position', x.fn('ssa_hpos', HPOS, hp_of, s.horizontal_position, c))

def colour_of(x, s):
    """&Hbbggrr or &Haabbggrr"""
    if not x.b(x.starts(s, '&H')): x.throw('sub::SSAError')
    n = x.slen(s); st = State(i=0)
    L = x.loop('prefix', st, inv=lambda q: [le(0, q.i), le(q.i, n)], variant=lambda q: sub(n, q.i))
    while True:
        yield L
        if not x.is_lt(st.i, n): break
        c = x.code(s, st.i)
        if not (x.is_(c, ord('&')) or x.is_(c, ord('H'))): break
        st.i = x.add(st.i, 1)
    v = x.strtoll16(x.substr(s, st.i))
    return colour(*[x.rdiv(x.byte(v, k), 255) for k in range(3)])
def x_colour(x, s): return x.fn('ssa_colour', COL, colour_of, s, exc='sub::SSAError')

FLAG = {'\\i1': ('italic', True), '\\i0': ('italic', False), '\\i': ('italic', False), '\\b1': ('bold', True), '\\b0': ('bold', False), '\\u1': ('underline', True), '\\u0': ('underline', False)}
def tag_of(x, s, t, c):
    """the style after one override tag"""
    for k in FLAG:
        if x.is_(t, k): return s.with_(*FLAG[k])
    for n in range(1, 10):
        if x.is_(t, '\\an%d' % n):
            v = s.vertical_position.with_('reference', some(VREF, (BOTTOM_OF_SCREEN, VCENTRE, TOP_OF_SCREEN)[(n - 1) // 3]))
            return x_hpos(x, s.with_('horizontal_position', s.horizontal_position.with_('reference', (n - 1) % 3)).with_('vertical_position', v), c)
    if x.b(x.starts(t, '\\pos')):
        b = x.split(t, '(,')
        if not x.is_(x.vlen(b), 3): x.throw('sub::ProgrammingError')
        v = s.vertical_position.with_('reference', some(VREF, TOP_OF_SCREEN)).with_('proportional', some(T_DBL, x.rdiv(x.raw_real(x.vget(b, 2)), c.play_res_y)))
        return s.with_('horizontal_position', hpos(0, x.rdiv(x.raw_real(x.vget(b, 1)), c.play_res_x))).with_('vertical_position', v)
    if x.b(x.starts(t, '\\fs')) and not x.b(x.starts(t, '\\fsc')) and not x.b(x.starts(t, '\\fsp')):
        if not x.is_lt(3, x.slen(t)): x.throw('sub::ProgrammingError')
        return s.with_('font_size', s.font_size.with_('_proportional', some(T_DBL, x.rdiv(x.raw_real(x.substr(t, 3)), c.play_res_y))))
    if x.b(x.starts(t, '\\c')) and not x.b(x.starts(t, '\\clip')):
        if x.is_(x.slen(t), 2): return s.with_('colour', c.primary_colour)
        return s.with_('colour', x_colour(x, x.substr(t, 2)))
    return s
TAG_EXC = ['sub::ProgrammingError', 'sub::SSAError']
FRAME = ['text', 'font', 'effect', 'effect_colour', 'from', 'to', 'fade_up', 'fade_down']   # what a tag never touches
def tag_frame(s, r):
    """the tag's result r, with what it cannot change taken from s"""
    v, w = s.vertical_position, r.vertical_position
    opt = lambda a, b: Opt(b.t, disj(a.has, b.has), b.val)
    return Rec(r.t, dict(r.f, **{k: s.f[k] for k in FRAME},
        vertical_position=v.with_('reference', opt(v.reference, w.reference)).with_('proportional', opt(v.proportional, w.proportional)), font_size=s.font_size.with_('_proportional', r.font_size._proportional)))
def tag_args(s): return [s.horizontal_position, s.vertical_position, s.font_size, s.colour, s.bold, s.italic, s.underline]
def x_tag(x, s, t, c):
    if x.conc: return tag_of(x, s, t, c)
    return tag_frame(s, x.fn('ssa_tag', RAW, None, *(tag_args(s) + [t, c]), exc=TAG_EXC))

TEXT, TAG, BACKSLASH = 0, 1, 2
def placed(r): return [r.vertical_position.proportional.has, r.vertical_position.reference.has]
def spec_line(x, base, line, c):
    cur = base
    if not x.has(cur.vertical_position.reference): cur = cur.with_('vertical_position', cur.vertical_position.with_('reference', some(VREF, BOTTOM_OF_SCREEN)))
    cur = cur.with_('vertical_position', cur.vertical_position.with_('proportional', some(T_DBL, x.real(0))))
    cur = x_hpos(x, cur, c)
    if not x.has(cur.font_size._proportional): cur = cur.with_('font_size', cur.font_size.with_('_proportional', some(T_DBL, x.rdiv(72, c.play_res_y))))
    size = x.rmul(cur.font_size._proportional.val, x.real(1.2) if x.conc else Fraction(6, 5))
    n = x.slen(line)
    st = State(i=0, state=TEXT, subs=Vec(RAW), cur=cur, tag='', breaks=0)
    def flush():
        if x.b(x.ne_str(st.cur.text)):
            st.subs = x.push(st.subs, st.cur); st.cur = st.cur.with_('text', '')
    L = x.loop('characters', st, inv=lambda q: [le(0, q.i), le(q.i, n), le(0, q.breaks), le(q.breaks, q.i), le(0, q.state), le(q.state, 2), *placed(q.cur)], variant=lambda q: sub(n, q.i), each={'subs': placed})
    while True:
        yield L
        if not x.is_lt(st.i, n): break
        ch = x.code(line, st.i)
        is_ = lambda k: x.is_(ch, ord(k))
        if x.is_(st.state, TEXT):
            if is_('{'): st.state = TAG
            elif is_('\\'): st.state = BACKSLASH
            elif not (is_('\r') or is_('\n')): st.cur = st.cur.with_('text', x.cat(st.cur.text, x.ch(line, st.i)))
        elif x.is_(st.state, TAG):
            if is_('}') or is_('\\'):
                flush(); st.cur = x_tag(x, st.cur, st.tag, c); st.tag = ''
            if is_('}'): st.state = TEXT
            else: st.tag = x.cat(st.tag, x.ch(line, st.i))
        else:
            if is_('n') or is_('N'):
                flush(); st.breaks = x.add(st.breaks, 1)
                v = st.cur.vertical_position; p = v.proportional.val
                p = x.rsub(p, size) if x.is_(v.reference.val, BOTTOM_OF_SCREEN) else x.radd(p, size)
                st.cur = st.cur.with_('vertical_position', v.with_('proportional', some(T_DBL, p)))
            st.state = TEXT
        st.i = x.add(st.i, 1)
    flush()
    margin = opt_get(x, base.vertical_position.proportional, x.real(0))
    m = x.vlen(st.subs); s2 = State(j=0, subs=st.subs)
    L = x.loop('positions', s2, inv=lambda q: [le(0, q.j), le(q.j, m)], variant=lambda q: sub(m, q.j), each={'subs': placed})
    while True:
        yield L
        if not x.is_lt(s2.j, m): break
        r = x.vget(s2.subs, s2.j); v = r.vertical_position
        p = v.proportional.val; ref = v.reference.val
        if x.is_(ref, TOP_OF_SCREEN) or x.is_(ref, TOP_OF_SUBTITLE): p = x.radd(p, margin)
        elif x.is_(ref, VCENTRE): p = x.rsub(p, x.rdiv(x.rmul(x.real(x.add(st.breaks, 1)), size), x.real(2)))
        else: p = x.radd(x.radd(p, margin), x.rmul(x.real(st.breaks), size))
        s2.subs = x.vset(s2.subs, s2.j, r.with_('vertical_position', v.with_('proportional', some(T_DBL, p)))); s2.j = x.add(s2.j, 1)
    return s2.subs

# ---------------------------------------------------------------- proofs
def ctx(env):
    c = env.fresh(CTX, 'ctx')
    for k in ('play_res_x', 'play_res_y'): env.x.assume(lt(0, c.f[k]))
    return c
def t_hpos(env):
    s = env.var('sub', 'sub::RawSubtitle'); old = env.it.load(s); c = ctx(env)
    env.spec(gen(hpos_of)(env.x, old, c)); out = env.call('sub::SSAReader::Context::update_horizontal_position', c, [s])
    r = env.prod.finish(); env.c.oblige('update_horizontal_position returns', out[0] == 'ret'); env.eq('update_horizontal_position: subtitle', s, r[1])
def t_colour(env):
    s = env.fresh(('str',), 's'); env.spec(colour_of(env.x, s)); env.compare('h_colour', env.call('h_colour', None, [s]))
def t_tag(env):
    env.hook('sub::SSAReader::Context::update_horizontal_position', hpos_hook)
    env.modular('h_colour', 'ssa_colour', COL, exc='sub::SSAError')
    s = env.var('sub', 'sub::RawSubtitle'); old = env.it.load(s); c = ctx(env); t = env.fresh(('str',), 'tag')
    env.spec(gen(tag_of)(env.x, old, t, c)); out = env.call('sub::SSAReader::parse_tag', None, [s, t, c])
    new = env.it.load(s)
    env.compare('parse_tag', out, [('subtitle', new, lambda: env.prod.spec_out[1])], result=False)
    if out[0] == 'ret':
        if out[0] == 'ret': env.eq('a tag changes nothing but style, size, colour and position', tag_frame(old, new), new)
def hpos_hook(it, this, args, node):
    c = it.load(this) if isinstance(this, LV) else this
    if isinstance(c, Ptr): c = it.load(c.lv)
    it.c.stats.modular.add('sub::SSAReader::Context::update_horizontal_position')
    v = it.load(args[0])
    it.store(args[0], v.with_('horizontal_position', it.S.ufv('c_ssa_hpos', HPOS, v.horizontal_position, c)))
def tag_hook(it, this, args, node):
    v = [it.load(a) if isinstance(a, LV) else a for a in args]
    it.c.stats.modular.add('sub::SSAReader::parse_tag')
    a = tag_args(v[0]) + v[1:]
    for k, e in enumerate(TAG_EXC):
        if it.c.branch(uf('c_ssa_tag.throws%s' % (k or ''), 'bool', it.S.flat(a))): raise CppThrow(e, (), '')
    it.store(args[0], tag_frame(v[0], it.S.ufv('c_ssa_tag', RAW, *a)))
def t_line(env):
    x = env.x
    env.hook('sub::SSAReader::Context::update_horizontal_position', hpos_hook)
    env.hook('sub::SSAReader::parse_tag', tag_hook)
    base = env.fresh('sub::RawSubtitle', 'base'); line = env.fresh(('str',), 'line'); c = ctx(env)
    x.assume(lt(x.slen(line), (1 << 31) - 2))
    env.spec(spec_line(x, base, line, c)); env.compare('parse_line', env.call('sub::SSAReader::parse_line', None, [base, line, c]))

def tasks():
    T = ['ssa_reader', 'raw_subtitle', 'font_size']
    return [Task('horizontal position', T, t_hpos, 60), Task('colour', T, t_colour, 60), Task('tag', T, t_tag, 120), Task('line', T, t_line, 300)]

# ---------------------------------------------------------------- replay
def rctx(rng):
    return Rec('sub::SSAReader::Context', dict(play_res_x=rng.choice([288, 1920, 100, rng.randint(1, 4000)]), play_res_y=rng.choice([288, 1080, 100, 720, rng.randint(1, 4000)]), primary_colour=gens.rcol(rng),
               left_margin=rng.choice([0, 0, 20, 300, rng.randint(0, 500)]), right_margin=rng.choice([0, 0, 10, 200, rng.randint(0, 500)])))
from vc.replay import FIELDS
FIELDS['sub::SSAReader::Context'] = ['play_res_x', 'play_res_y', 'primary_colour', 'left_margin', 'right_margin']
def rtag(rng, mined=None):
    k = rng.randrange(14)
    if k < 4: return rng.choice(list(FLAG))
    if k < 6: return '\\an%d' % rng.randint(0, 10)
    if k == 6: return '\\pos(%s,%s)' % (rng.choice(['10', '0', '100.5', '288', ' 7', 'x']), rng.choice(['20', '0', '50', '1080', '3.25', '']))
    if k == 7: return rng.choice(['\\pos(1)', '\\pos', '\\pos(1,2,3)', '\\pos10,20', '\\posit(3,4'])
    if k == 8: return '\\fs%s' % rng.choice(['24', '72', '10.5', '', 'x', 'cx120', 'cy90', 'p2', '+5', '100'])
    if k in (9, 10):
        return '\\c' + rng.choice(['', '&H%06X&' % rng.getrandbits(24), '&H%06x' % rng.getrandbits(24), '&H%08X&' % rng.getrandbits(32), '&HFF&', '&H', '&', 'H', 'red', '&&HH12', '&HH%06X' % rng.getrandbits(24), '&H&H%06X' % rng.getrandbits(24), '&H&%06X&' % rng.getrandbits(24), '&H' + '0' * rng.randint(1, 60) + '%06X&' % rng.getrandbits(24), '&Hzz', '&h00ff00&', '&H%X' % rng.getrandbits(70), 'lip(0,0,100,100)', 'lip'])
    if k == 11: return rng.choice(['\\', '', 'i1', '\\r', '\\fnArial', '\\fad(100,200)', '\\k50', '\\blur2', '\\bord3', '\\I1', '\\an', '\\an55', '\\b', '\\u', '\\b2', '\\i1 ', '\\1c&HFF&', '\\nice', '\\N', '\\n', '\\s1'])
    if k == 13 and rng.random() < .5:
        z = '0' * rng.choice([1, 10, 30, 60, 130, 260]); return rng.choice(['\\pos(%s10,%s20)' % (z, z), '\\pos(1.5%s,2.5%s)' % (z, z), '\\fs%s24' % z, '\\fs24.5%s' % z, '\\i' + z + '1', '\\fn' + 'Long Font Name ' * rng.randint(1, 20), '\\an8' + z])
    if k == 12 and mined and mined['strs']: return rng.choice(mined['strs'])
    return '\\' + rng.choice(['i1', 'b1', 'u1', 'i0', 'an8', 'an2', 'an4'])
def rline(rng, mined=None):
    out = []
    if rng.random() < .03:
        w = rng.choice([[4, 4, 7], [0, 7], [7], [0, 4, 8], [0]])
        for _ in range(rng.choice([8, 15, 40, 120])):
            k = rng.choice(w); out.append('Some words' if k == 0 else '{' + rng.choice(['\\i1', '\\i0', '\\b1', '\\an8', '\\an5', '\\an2']) + '}x' if k == 4 else rng.choice(['\\N', 'a\\N', '\\n']) if k == 7 else 'long ' * 30)
        return ''.join(out)
    for _ in range(rng.choice([0, 1, 2, 3, 5, rng.randint(1, 12)])):
        k = rng.randrange(10)
        if k < 4: out.append(rng.choice(['Hello', 'a', ' ', 'caf\xc3\xa9', 'x,y', '\xe2\x99\xaa', 'N', 'n', '}', 'tail }', '123']))
        elif k < 7: out.append('{' + ''.join(rtag(rng, mined) for _ in range(rng.choice([1, 1, 1, 2, 3]))) + rng.choice(['}', '}', '}', '}', '}', '}', '}', '', '\\}']))
        elif k < 9: out.append(rng.choice(['\\N', '\\n', '\\N', '\\N\\N', '\\h', '\\', '\\\\', '\\\\N', '\\{i1}', '\r', '\n']))
        else: out.append(rng.choice(['{', '{}', '{comment}', '{\\nope}', '{a\\N}', '{{\\i1}']))
    return ''.join(out)
def rbase(rng, mined):
    b = gens.rraw(rng, mined=mined)
    if rng.random() < .7: b = b.with_('text', '')
    return b
def cases(rng, n, mined):
    for t in list(FLAG) + ['\\an%d' % k for k in range(0, 11)] + ['\\c', '\\fs', '\\fs24', '\\pos(1,2)', '']:
        b, c = rbase(rng, mined), rctx(rng); yield Case('ssatag %s %s %s' % (toks(b), hexs(t), toks(c)), conc(tag_of, b, t, c), 'tag %r' % t)
    for ref in (0, 1, 2):
        b, c = rbase(rng, mined), rctx(rng); b = b.with_('horizontal_position', hpos(ref, 0.25)); yield Case('ssahpos %s %s' % (toks(b), toks(c)), conc(hpos_of, b, c), 'horizontal margins')
    while True:
        k = rng.randrange(10); c = rctx(rng); b = rbase(rng, mined)
        if k < 3: t = rtag(rng, mined); yield Case('ssatag %s %s %s' % (toks(b), hexs(t), toks(c)), conc(tag_of, b, t, c), 'tag %r' % t)
        elif k < 4: yield Case('ssahpos %s %s' % (toks(b), toks(c)), conc(hpos_of, b, c), 'horizontal margins')
        else: l = rline(rng, mined); yield Case('ssaline %s %s %s' % (toks(b), hexs(l), toks(c)), conc(spec_line, b, l, c), 'dialogue text %r' % l)
