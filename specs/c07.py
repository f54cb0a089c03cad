"""C07: reading SubRip files."""
from .common import *
from . import gens, c05, c06, c09
from .c05 import OTIME
from vc.check import Case
CASES = 5000
COUNTER, METADATA, CONTENT = 0, 1, 2
LINE_EXC = ['sub::SubripError', 'sub::XMLError', 'sub::ProgrammingError', 'sub::SSAError']
LISTSTR = ('vec', T_STR)

# ---------------------------------------------------------------- callees
def x_line(x, number, t, p, subs, context):
    """-> (piece, pieces) after one line of text (C06)"""
    if x.conc:
        g = c06.spec_line(x, number, t, p, subs, context)
        try:
            while True: next(g)
        except StopIteration as s: return s.value
    a = [number, t, p, subs, context]
    for k, e in enumerate(LINE_EXC):
        if x.c.branch(uf('c_srt_line.throws%s' % (k or ''), 'bool', x.S.flat(a))): x.throw(e)
    return c06.line_frame(p, x.S.ufv('c_srt_line', RAW, *a)), x.S.ufv('c_srt_subs', ('vec', RAW), *a)
def line_hook(it, this, args, node):
    it.c.stats.modular.add('sub::SubripReader::convert_line')
    number, t, p = [it.load(a) if isinstance(a, LV) else a for a in args]
    r = it.load(this)
    if isinstance(r, Ptr): this = r.lv; r = it.load(this)
    a = [number, t, p, r._subs, r._context]
    for k, e in enumerate(LINE_EXC):
        if it.c.branch(uf('c_srt_line.throws%s' % (k or ''), 'bool', it.S.flat(a))): raise CppThrow(e, (), '')
    it.store(args[2], c06.line_frame(p, it.S.ufv('c_srt_line', RAW, *a))); it.store(this, r.with_('_subs', it.S.ufv('c_srt_subs', ('vec', RAW), *a)))
def x_time(x, t, sep):
    if x.conc: return c05.time_of(x, t, sep)
    return x.S.ufv('c_srt_time', OTIME, t, sep), x.S.ufv('c_srt_time_expected', T_STR, t, sep)
def time_hook(it, this, args, node):
    it.c.stats.modular.add('sub::SubripReader::convert_time')
    t, sep = [it.load(a) if isinstance(a, LV) else a for a in args[:2]]
    r = it.S.ufv('c_srt_time', OTIME, t, sep)
    p = args[2] if len(args) > 2 else NULL
    if isinstance(p, LV): p = it.load(p)
    if isinstance(p, Ptr) and not it.c.branch(r.has): it.store(p.lv, it.S.ufv('c_srt_time_expected', T_STR, t, sep))
    return r

# ---------------------------------------------------------------- contract
def keep(x, context, l):
    """the last five lines"""
    context = x.push(context, l)
    return x.vpopfront(context) if x.is_lt(5, x.vlen(context)) else context
def times_of(x, src, k, l, context, sep, fail):
    """the cue times of a time/position line"""
    l = x.trim(l, ' ', 'right'); p = x.split(l, ' ', True); n = x.vlen(p)
    if not x.is_(n, 3) and not x.is_(n, 7):
        for j in range(2):
            e = x.line(src, x.add(k, j))
            if x.has(e): context = x.push(context, e.val)
        fail(l, 'a time%s line' % ('/position' if sep == ',' else ''), context)
    out = []
    for j in (0, 2):
        s = x.vget(p, j); t, want = x_time(x, s, sep)
        if not x.has(t): fail(s, want, context)
        out.append(t.val)
    return out
def fresh_piece(x):
    r = raw_default(x)
    return r.with_('vertical_position', r.vertical_position.with_('line', some(T_INT, 0)).with_('reference', some(VREF, TOP_OF_SUBTITLE)))
def rows(r): return [r.vertical_position.line.has]
def spec_read(x, src, subs=None, context=None):
    s = State(k=0, state=COUNTER, rs=fresh_piece(x), subs=subs or Vec(RAW), context=context or Vec(T_STR))
    L = x.loop('lines', s, inv=lambda q: [le(0, q.k), le(0, q.state), le(q.state, 2), q.rs.vertical_position.line.has, le(0, x.vlen(q.context)), le(x.vlen(q.context), 5)])
    while True:
        yield L
        o = x.line(src, s.k); s.k = x.add(s.k, 1)
        if not x.has(o): break
        l = nobom(x, x.trim(o.val, '\n\r', 'right'))
        s.context = keep(x, s.context, l)
        if x.is_(s.state, COUNTER):
            if not x.is_(l, ''): s.state = METADATA; s.rs = fresh_piece(x)
        elif x.is_(s.state, METADATA):
            f, t = times_of(x, src, s.k, l, s.context, ',', lambda saw, want, ctx: x.throw('sub::SubripError', s.k, saw, want, ctx))
            s.rs = s.rs.with_('from', f).with_('to', t); s.state = CONTENT
        elif x.is_(l, ''): s.state = COUNTER
        else:
            parts = x.split_lit(l, '\xe2\x80\xa8'); q = State(j=0)
            P = x.loop('parts', q, inv=lambda q: [le(0, q.j), le(q.j, x.vlen(parts)), s.rs.vertical_position.line.has], variant=lambda q: sub(x.vlen(parts), q.j))
            while True:
                yield P
                if not x.is_lt(q.j, x.vlen(parts)): break
                s.rs, s.subs = x_line(x, s.k, x.vget(parts, q.j), s.rs, s.subs, s.context)
                v = s.rs.vertical_position
                s.rs = s.rs.with_('vertical_position', v.with_('line', some(T_INT, x.add(v.line.val, 1)))).with_('text', '')
                q.j = x.add(q.j, 1)
    return s.subs

# ---------------------------------------------------------------- proofs
def t_read(env):
    x = env.x
    env.hook('sub::SubripReader::convert_line', line_hook); env.hook('sub::SubripReader::convert_time', time_hook); hook_bom(env)
    r = env.var('reader', 'sub::SubripReader', reader0(env, 'sub::SubripReader')); rd = env.it.load(r); src = env.linesource()
    env.spec(spec_read(x, src)); out = env.call('sub::SubripReader::read', r, [src])
    env.compare('read', out, [('subtitles', lambda: env.it.load(r)._subs, lambda: env.prod.spec_out[1])], result=False)
def reader0(env, cls):
    r = env.S.fresh(('rec', cls), 'reader')
    for k, v in r.f.items():
        if isinstance(v, Vec): r = r.with_(k, Vec(v.t))
    return r

def tasks(): return [Task('read', ['subrip_reader'], t_read, 300)]

# ---------------------------------------------------------------- replay
def err_judge(e):
    """expected error: type, line, context and message"""
    t, a = e[1], e[2]
    def j(got):
        if got[0] == 'crash': return 'the code crashed: ' + got[1]
        if got[0] != 'throw' or got[1] != t: return 'expected exception %s, got %s' % (t, str(got[:2])[:300])
        if a is None: return None
        d = got[2]; a_ = list(a)
        if t == 'sub::SubripError':
            n = a_.pop(0)
            if d.get('line') != n: return 'the error names line %s, expected %s' % (d.get('line'), n)
        if len(a_) < 3: return None
        saw, want, ctx = a_
        if d.get('ctx') != js(ctx): return 'error context %r, expected %r' % (d.get('ctx'), js(ctx))
        for w in (saw or 'an empty string', want):
            if '%' not in w and '%' not in saw and w not in d.get('what', ''): return 'the message %r does not say %r' % (d.get('what'), w)
        return None
    return j
def file_case(text, mode, note, op='srt', spec=spec_read):
    e = conc(spec, lines_of(text, mode))
    return Case('%s %s %s' % (op, mode, hexs(text)), e if e[0] == 'ret' else err_judge(e), '%s %r' % (note, text[:300]))
def messy(rng, lines):
    """line endings, byte order mark, missing last newline"""
    nl = rng.choice(['\n', '\n', '\n', '\r\n']); t = nl.join(lines) + rng.choice([nl, nl, '', nl + nl])
    if rng.random() < .06: t = ''.join(c + rng.choice(['', '', '\r', '\r\r', '\r\r\r']) if i + 1 < len(t) and t[i + 1] == '\n' else c for i, c in enumerate(t))
    if rng.random() < .1: t = BOM + t
    if rng.random() < .03: t = t.replace('\n', '\n' + BOM, 1)
    return t
def stamp(rng, sep, bad=0):
    if rng.random() < bad: return c05.stamp(rng)
    if rng.random() < .05: return '%d:%d:%d%s%d' % (rng.randint(0, 30), rng.randint(0, 70), rng.randint(0, 70), sep, rng.randint(0, 1100))
    return '%02d:%02d:%02d%s%03d' % (rng.choice([0, 1, 23, rng.randint(0, 99)]), rng.randint(0, 59), rng.randint(0, 59), sep, rng.randint(0, 999))
def rtimeline(rng, sep):
    k = rng.randrange(40)
    a, b = stamp(rng, sep, .01), stamp(rng, sep, .01)
    if k == 0: return rng.choice(['%s --> ', '%s-->%s', '', '%s', '%s --> %s x', '%s --> %s  X1:1 X2:2 Y1:3', ' %s --> %s', '%s %s', '%s, --> %s']).replace('%s', a)
    if k == 1: return '%s --> %s X1:10 X2:20 Y1:30 Y2:40' % (a, b)
    if k == 2: return '%s  -->   %s   ' % (a, b)
    if k == 3: return '%s foo %s' % (a, b)
    return '%s --> %s%s' % (a, b, ' ' if rng.random() < .1 else '')
def rtext(rng, mined):
    k = rng.randrange(10)
    if k < 5: return rng.choice(['Hello', 'World', 'caf\xc3\xa9', '- yes', '12', ' ', '  lead', 'a\xe2\x80\xa8b', '\xe2\x80\xa8', 'x\xe2\x80\xa8\xe2\x80\xa8y', '<i>it</i>', '<i>open', 'close</i>', '-->', '\xe2\x80\xab'])
    try: return c06.valid(c06.markup(rng, mined))
    except OutOfScope: return 'text'
def rfile(rng, mined):
    out = ['' for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    b = gens.big(rng)
    for n in range(b):
        out += [str(n + 1), '%s --> %s' % (stamp(rng, ','), stamp(rng, ','))] + [rng.choice(['Hello', '<i>it</i>', 'Line %d' % n, 'a\xe2\x80\xa8b' * rng.choice([1, 1, 12])]) for _ in range(rng.choice([1, 1, 2, 3, 12, 40] if b < 100 else [1, 2]))] + ['']
    for n in range(0 if b and rng.random() < .8 else rng.choice([0, 1, 2, 2, 3, rng.randint(0, 6)])):
        out.append(rng.choice([str(n + 1), str(n + 1), str(n + 1), 'x', ' ', '0', '-->']))
        out.append(rtimeline(rng, ','))
        out += [rtext(rng, mined) for _ in range(rng.choice([1, 1, 2, 3, 0, rng.randint(0, 4)]))]
        out += [''] * rng.choice([1, 1, 1, 2, 3])
    if rng.random() < .1 and out: del out[rng.randrange(len(out))]
    if rng.random() < .05 and out: out.insert(rng.randrange(len(out) + 1), rng.choice(['', 'junk', ' ']))
    return out
def cases(rng, n, mined):
    while True:
        yield file_case(messy(rng, rfile(rng, mined)), rng.choice('sf'), 'SubRip file')
