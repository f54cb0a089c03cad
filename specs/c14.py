"""C14: EBU STL files (EBU Tech 3264) as read."""
from .common import *
from vc.check import Case
from . import gens
from vc.prod import Root, Ptr
from .c15 import DSC, CCT, LC, TCS, CF, decode as tab_decode, describe as tab_describe, rate_of, CLS as TAB
from .c16 import decode as iso_decode, WIDE
CASES = 3000
GSI, TTI = 1024, 128
STR, NUM = 's', 'n'
# general subtitle information: offset, length, kind
HEADER = [
    ('code_page_number', 0, 3, NUM), ('frame_rate', 3, 8, 'rate'), ('display_standard', 11, 1, DSC), ('language_group', 12, 2, CCT), ('language', 14, 2, LC),
    ('original_programme_title', 16, 32, STR), ('original_episode_title', 48, 32, STR), ('translated_programme_title', 80, 32, STR), ('translated_episode_title', 112, 32, STR),
    ('translator_name', 144, 32, STR), ('translator_contact_details', 176, 32, STR), ('subtitle_list_reference_code', 208, 16, STR), ('creation_date', 224, 6, STR), ('revision_date', 230, 6, STR), ('revision_number', 236, 2, STR),
    ('tti_blocks', 238, 5, NUM), ('number_of_subtitles', 243, 5, NUM), ('subtitle_groups', 248, 3, NUM), ('maximum_characters', 251, 2, NUM), ('maximum_rows', 253, 2, NUM),
    ('timecode_status', 255, 1, TCS), ('start_of_programme', 256, 8, STR), ('first_in_cue', 264, 8, STR), ('disks', 272, 1, NUM), ('disk_sequence_number', 273, 1, NUM),
    ('country_of_origin', 274, 3, STR), ('publisher', 277, 32, STR), ('editor_name', 309, 32, STR), ('editor_contact_details', 341, 32, STR)]
COLOURS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)]   # alpha codes 00-07
TABF = {'display_standard': DSC, 'language_group': CCT, 'language': LC, 'timecode_status': TCS}

# ---------------------------------------------------------------- contracts
def decoded(x, text): return x.utf(x.fn('isodec', WIDE, iso_decode, text), 'w2u')
def hmsf(x, b, o, fr): return tm(x.add(x.mul(x.code(b, o), 3600), x.add(x.mul(x.code(b, o + 1), 60), x.code(b, o + 2))), x.code(b, o + 3), rat(fr, 1))
def tabfn(x, name, tab, k): return x.fn('stl_' + name, T_INT, lambda x, k: tab_decode(x, tab, k), k, exc='sub::STLError')
def read(x, text):
    def block(pos, n):
        if not x.is_le(x.add(pos, n), x.slen(text)): x.throw('sub::STLError')
        return x.substr(text, pos, n)
    g = block(0, GSI); h = {}
    for name, o, n, kind in HEADER:
        s = x.substr(g, o, n)
        if kind == STR: h[name] = s
        elif kind == NUM: h[name] = x.atoi(s)
        elif kind == 'rate': h[name] = x.rint(x.fn('stl_rate', T_DBL, rate_of, s, exc='sub::STLError'))
        else: h[name] = tabfn(x, name, kind, s)
    if x.is_(h['maximum_rows'], 99): h['maximum_rows'] = 12
    rows, fr, nb = h['maximum_rows'], h['frame_rate'], h['tti_blocks']
    st = State(i=0, pos=GSI, subs=Vec(RAW), top=0)
    rowed = lambda r: [r.vertical_position.line.has, le(0, r.vertical_position.line.val), le(r.vertical_position.line.val, 400)]
    topok = lambda s: [le(0, s.top), le(s.top, 400)]
    B = x.loop('blocks', st, inv=lambda s: [le(0, s.i), le(s.pos, x.slen(text)), *topok(s)], each={'subs': rowed}, variant=lambda s: sub(nb, s.i))
    while True:
        yield B
        if not x.is_lt(st.i, nb): break
        b = block(st.pos, TTI); st.i = x.add(st.i, 1); st.pos = x.add(st.pos, TTI)
        if x.is_(x.fn('stl_comment', T_INT, lambda x, k: tab_decode(x, CF, k), x.code(b, 15), exc='sub::STLError'), 1): continue
        lines = x.split(x.substr(b, 16, 112), '\x8a'); nl = x.vlen(lines)
        r = raw_default(x).with_('from', hmsf(x, b, 5, fr)).with_('to', hmsf(x, b, 9, fr))
        jc = x.code(b, 14)
        for codes, ref in (((0, 2), 1), ((1,), 0), ((3,), 2)):
            if any(x.is_(jc, c) for c in codes): r = r.with_('horizontal_position', hpos(ref, ri(x, 0)))
        s = State(j=0, italic=False, underline=False, subs=st.subs, top=st.top)
        L = x.loop('lines', s, inv=lambda s: [le(0, s.j), *topok(s)], each={'subs': rowed}, variant=lambda s: sub(nl, s.j))
        while True:
            yield L
            if not x.is_lt(s.j, nl): break
            line = x.vget(lines, s.j); n = x.slen(line)
            row = x.add(x.code(b, 13), s.j)
            if x.is_lt(s.top, row): s.top = row
            base = r.with_('vertical_position', vpos(line=row, lines=rows, ref=TOP_OF_SCREEN))
            q = State(k=0, text='', colour=r.colour, italic=s.italic, underline=s.underline, subs=s.subs)
            def flush(): q.subs = x.push(q.subs, base.with_('text', decoded(x, q.text)).with_('colour', q.colour).with_('italic', q.italic).with_('underline', q.underline))
            C = x.loop('characters', q, inv=lambda s: [le(0, s.k), le(s.k, n)], each={'subs': rowed}, variant=lambda s: sub(n, s.k))
            while True:
                yield C
                if not x.is_lt(q.k, n): break
                ch = x.code(line, q.k)
                if x.is_(ch, 0x8f): break
                if x.b(disj(le(ch, 7), conj(le(0x80, ch), le(ch, 0x83)))):
                    flush(); q.text = ''
                    for k, c in enumerate(COLOURS):
                        if x.is_(ch, k): q.colour = colour(*[ri(x, v) for v in c]); break
                    else:
                        if x.is_(ch, 0x80): q.italic = True
                        elif x.is_(ch, 0x81): q.italic = False
                        elif x.is_(ch, 0x82): q.underline = True
                        else: q.underline = False
                else: q.text = x.cat(q.text, x.ch(line, q.k))
                q.k = x.add(q.k, 1)
            if x.b(x.ne_str(q.text)): flush()
            s.subs, s.italic, s.underline = q.subs, q.italic, q.underline; s.j = x.add(s.j, 1)
        st.subs, st.top = s.subs, s.top
    subs = st.subs
    if x.is_lt(rows, st.top):
        m = x.vlen(subs); by = x.sub(st.top, rows); p = State(j=0, subs=subs)
        M = x.loop('move up', p, inv=lambda s: [le(0, s.j), le(s.j, m)], variant=lambda s: sub(m, s.j), count='j')
        while True:
            yield M
            if not x.is_lt(p.j, m): break
            r = x.vget(p.subs, p.j); v = r.vertical_position
            p.subs = x.vset(p.subs, p.j, r.with_('vertical_position', v.with_('line', some(T_INT, x.sub(v.line.val, by))))); p.j = x.add(p.j, 1)
        subs = p.subs
    h['_subs'] = subs
    return h

META = {'Code page number': 'code_page_number', 'Frame rate': 'frame_rate', 'Display standard': DSC, 'Language group': CCT, 'Language': LC, 'Timecode status': TCS, 'TTI blocks': 'tti_blocks', 'Number of subtitles': 'number_of_subtitles', 'Subtitle groups': 'subtitle_groups',
        'Maximum characters': 'maximum_characters', 'Maximum rows': 'maximum_rows', 'Disks': 'disks', 'Disk sequence number': 'disk_sequence_number'}
META.update({n[0].upper() + n[1:].replace('_', ' '): n for n, o, l, k in HEADER if k == STR})
def meta(x, h):
    """h: the value of each header field"""
    m = {}
    for k, f in META.items():
        if isinstance(f, list): n = k.lower().replace(' ', '_'); m[k] = x.fn('stl_d_' + n, T_STR, lambda x, v: tab_describe(x, f, v), h(n))
        else: v = h(f); m[k] = v if isinstance(v, str) or is_term(v) and z3.is_string(v) else x.int_str(v)
    return m

# ---------------------------------------------------------------- proofs
Q = 'sub::STLBinaryReader'
def hooks(env):
    from .c11 import hook_hmsf
    hook_hmsf(env); last = lambda a: a[-1:]
    for n in TABF: env.modular(TAB + '::%s_file_to_enum' % n, 'stl_' + n, T_INT, exc='sub::STLError', pick=last)
    env.modular(TAB + '::comment_file_to_enum', 'stl_comment', T_INT, exc='sub::STLError', pick=last)
    env.modular('sub::stl_dfc_to_frame_rate', 'stl_rate', T_DBL, exc='sub::STLError', this=False)
    rate = env.it.hooks['sub::stl_dfc_to_frame_rate']
    def bounded(it, th, args, node):
        r = rate(it, th, args, node); it.c.assume(z3.And(r >= 23, r <= 31)); return r      # C15: one of four rates
    env.hook('sub::stl_dfc_to_frame_rate', bounded)
    env.modular('sub::iso6937_to_utf16', 'isodec', WIDE, this=False)
def t_read(kind):
    def run(env):
        x = env.x; hooks(env)
        text = env.fresh(T_STR, 'text')
        src = env.file(text) if kind == 'file' else env.var('in', ('rec', 'istream'), Rec('bytesin', {'text': text, 'pos': 0, 'got': 0, 'fail': False}))
        env.spec(read(x, text))
        out = env.construct(Q + '::STLBinaryReader', Q, [src], pred=lambda d: ('FILE' in d['params'][0]['t']) == (kind == 'file'))
        if out[0] == 'throw': env.compare('STLBinaryReader', out); return
        so = env.prod.finish()
        env.c.oblige('STLBinaryReader: outcome', so[0] == 'ret')
        if so[0] == 'ret':
            for n in so[1]: env.eq('STLBinaryReader: ' + n, out[1].f[n], so[1][n])
    return run
def t_meta(env):
    for n in TABF: env.modular(TAB + '::%s_enum_to_description' % n, 'stl_d_' + n, T_STR, pick=lambda a: a[-1:])
    r = env.var('reader', Q); old = env.it.load(r)
    out = env.call(Q + '::metadata', r, [])
    env.c.oblige('metadata returns', out[0] == 'ret')
    want = meta(env.x, lambda n: old.f[n]); got = dict(out[1].chain)
    env.c.oblige('metadata: names', out[1].base is None and set(got) == set(want))
    for k in want:
        if k in got: env.eq('metadata: ' + k, got[k], want[k])
def tasks():
    T = ['stl_binary_reader', 'font_size', 'raw_subtitle', 'rational']
    return [Task('read from a stream', T, t_read('stream'), 500), Task('read from a file', T, t_read('file'), 500), Task('metadata', T, t_meta, 60)]

# ---------------------------------------------------------------- replay
def rgsi(rng, blocks, ok=True):
    num = lambda w, v=None: ('%%0%dd' % w) % (rng.randrange(10 ** w) if v is None else v)
    txt = lambda w: ''.join(rng.choice('abcXYZ 019-.') if rng.random() < .95 else chr(rng.randrange(1, 256)) for _ in range(w)) if rng.random() < .7 else 'Title'.ljust(w)[:w]
    bad = lambda v: v if ok or rng.random() > .1 else txt(len(v))
    o = ''
    for name, off, w, kind in HEADER:
        assert off == len(o)
        if name == 'tti_blocks': v = num(w, max(0, blocks))
        elif name == 'maximum_rows': v = num(w, rng.choice([11, 23, 99, 99, 12, 14, 15, rng.randrange(100)]))
        elif name == 'code_page_number': v = rng.choice(['850', '437', '865', num(3)])
        elif kind == 'rate': v = bad(rng.choice(['STL25.01', 'STL25.01', 'STL24.01', 'STL30.01', 'STL23.01']))
        elif kind == STR: v = txt(w)
        elif kind == NUM: v = num(w) if rng.random() < .9 else txt(w)
        else: v = bad(rng.choice(kind)[0])
        o += v
    return o + ''.join(' ' for _ in range(GSI - len(o)))
WORDS = ['Hello', 'a', ' ', 'x.y', '-', '\xc2e', '\xc8u', '\xc1', 'Caf\xc2e', '\xd5', '\xa4', '123']
def rtti(rng):
    b = [rng.randrange(256) for _ in range(5)]
    b += [rng.choice([0, 1, 10, 23]), rng.randrange(60), rng.randrange(60), rng.randrange(25), rng.choice([0, 1, 10, 23]), rng.randrange(60), rng.randrange(60), rng.randrange(25)] if rng.random() < .95 else [rng.randrange(256) for _ in range(8)]
    b += [rng.choice([0, 1, 20, 22, 11, 13, rng.randrange(256)]), rng.choice([0, 1, 2, 3, 2, 2, rng.randrange(256)]), rng.choice([0] * 8 + [1, 1]) if rng.random() < .98 else rng.randrange(256)]
    t = ''
    while len(t) < 112:
        k = rng.randrange(12)
        if k < 5: t += rng.choice(WORDS)
        elif k < 7: t += rng.choice(['\x8a', '\x8a', '\x8a\x8a'])
        elif k < 9: t += chr(rng.choice([0x80, 0x81, 0x82, 0x83, rng.randrange(8)]))
        elif k == 9: t += rng.choice(['\x0d', '\x0b\x0b', '\x84', '\x85', '\x0a', '\x08', chr(rng.randrange(256))])
        elif rng.random() < .3: t += '\x8f' * rng.choice([1, 2, 112])
        if rng.random() < .04: t += '\x8f' * 112
    return ''.join(map(chr, b)) + t[:112]
def rfile(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5]); ok = rng.random() < .85; b = gens.big(rng, .006)
    if b: some = [rtti(rng) for _ in range(5)]; n = b; ok = True
    t = rgsi(rng, n + (0 if rng.random() < .95 else rng.choice([-1, 1])), ok) + ''.join(rng.choice(some) if b else rtti(rng) for _ in range(n))
    k = rng.random()
    if k < .04: t = t[:rng.randrange(len(t) + 1)]
    elif k < .06: t = t[:rng.choice([1023, 1024, 1024 + 127, 0])]
    elif k < .1: i = rng.randrange(len(t)); t = t[:i] + chr(rng.randrange(256)) + t[i + 1:]
    elif k < .12: t += 'x' * rng.randrange(200)
    return t
def expect(t):
    e = conc(read, t)
    if e[0] == 'throw': return e
    h = e[1]; x = Ops()
    strs = [h[n] for n, o, l, k in HEADER if k == STR]; nums = [h[n] for n, o, l, k in HEADER if k != STR]
    return ('ret', [js(h['_subs']), strs, nums, meta(x, lambda n: h[n])])
def judge_of(e):
    def j(g):
        if e[0] == 'throw': return None if g[0] == 'throw' and g[1] == e[1] else 'expected %s, got %s' % (e[1], str(g[:2])[:200])
        if g[0] == 'throw': return 'unexpected exception %s: %s' % (g[1], str(g[2].get('what', ''))[:200])
        v = dict(g[1]); v['meta'] = {bytes.fromhex(k).decode('latin-1'): q for k, q in v['meta'].items()}
        for what, a, b in (('header text fields', e[1][1], v['strs']), ('header numbers', e[1][2], v['fields'])):
            if a != b: return '%s: expected %s, got %s' % (what, [p for p, q in zip(a, b) if p != q][:3], [q for p, q in zip(a, b) if p != q][:3])
        if e[1][3] != v['meta']: return 'metadata: expected %s, got %s' % tuple(str({k: d.get(k) for k in set(e[1][3]) | set(v['meta']) if e[1][3].get(k) != v['meta'].get(k)})[:300] for d in (e[1][3], v['meta']))
        if not same(e[1][0], v['subs']):
            if len(e[1][0]) != len(v['subs']): return 'expected %d pieces, got %d' % (len(e[1][0]), len(v['subs']))
            k = [k for k, (a, b) in enumerate(zip(e[1][0], v['subs'])) if not same(a, b)][0]
            return 'piece %d: expected %s, got %s' % (k, str(e[1][0][k])[:400], str(v['subs'][k])[:400])
    return j
def cases(rng, n, mined):
    while True:
        t = rfile(rng); e = expect(t); m = rng.choice('sf')
        if e[0] == 'throw': yield Case('stlbin %s %s' % (m, hexs(t)), e, 'EBU STL %r' % t[1024:1400])
        else: yield Case('stlbin %s %s' % (m, hexs(t)), judge_of(e), 'EBU STL %r' % t[1024:1400])
