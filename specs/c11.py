"""C11: Spruce STL text files."""
from .common import *
from . import gens, c07
from .c07 import reader0
from .c02 import spec_hmsf
from vc.check import Case
CASES = 5000
OTIME = ('opt', TIME)
BAD = 'boost::bad_lexical_cast'

def number(x, s):
    ok, v = x.lexical_int(s)
    if not x.b(ok): x.throw(BAD)
    return v
def time_of(x, t):
    b = x.split(t, ':')
    if not x.is_(x.vlen(b), 4): return none(TIME)
    h, m, s, f = [number(x, x.vget(b, k)) for k in range(4)]
    if x.conc: x.assume(abs(h) <= 590000 and abs(m) <= 20000 and abs(s) <= 100000, 'time fits')
    return some(TIME, spec_hmsf(x, h, m, s, f, none(RAT)))
def x_time(x, t): return x.fn('spruce_time', OTIME, time_of, t, exc=BAD)
def settings(x, r, name, value):
    if x.is_(name, '$FontName'): return r.with_('font', some(T_STR, value))
    if x.is_(name, '$Bold'): return r.with_('bold', x.eq(value, 'True'))
    if x.is_(name, '$Italic'): return r.with_('italic', x.eq(value, 'True'))
    if x.is_(name, '$Underlined'): return r.with_('underline', x.eq(value, 'True'))
    if x.is_(name, '$FontSize'): return r.with_('font_size', r.font_size.with_('_points', some(T_INT, number(x, value))))
    return r

def spec_read(x, src):
    r = raw_default(x)
    s = State(k=0, r=r.with_('vertical_position', r.vertical_position.with_('line', some(T_INT, 0)).with_('reference', some(VREF, TOP_OF_SUBTITLE))), subs=Vec(RAW))
    def push():
        if x.b(x.ne_str(s.r.text)): s.subs = x.push(s.subs, s.r); s.r = s.r.with_('text', '')
    def row(v): s.r = s.r.with_('vertical_position', s.r.vertical_position.with_('line', some(T_INT, v)))
    L = x.loop('lines', s, inv=lambda q: [le(0, q.k), q.r.vertical_position.line.has])
    while True:
        yield L
        o = x.line(src, s.k)
        if not x.has(o): break
        s.k = x.add(s.k, 1)
        l = x.trim(o.val); n = x.slen(l)
        if x.b(x.starts(l, '//')): continue
        if x.is_lt(0, n) and x.is_(x.code(l, 0), ord('$')):
            b = x.split(l, '=')
            if x.is_(x.vlen(b), 2): s.r = settings(x, s.r, x.trim(x.vget(b, 0)), x.trim(x.vget(b, 1)))
            continue
        # from , to , text
        c = x.find(l, ',')
        if x.is_lt(c, 0): continue
        d = x.find(l, ',', x.add(c, 1))
        if x.is_lt(d, 0): continue
        if x.is_le(c, 1) or x.is_le(x.sub(n, 1), d): continue
        f = x_time(x, x.trim(x.substr(l, 0, c))); t = x_time(x, x.trim(x.substr(l, x.add(c, 1), x.sub(x.sub(d, c), 1))))
        if not x.has(f) or not x.has(t): continue
        s.r = s.r.with_('from', f.val).with_('to', t.val); row(0)
        text = x.substr(l, x.add(d, 1)); m = x.slen(text); q = State(i=0)
        P = x.loop('characters', q, inv=lambda q: [le(0, q.i), le(q.i, add(m, 1)), s.r.vertical_position.line.has], variant=lambda q: sub(add(m, 1), q.i))
        while True:
            yield P
            if not x.is_lt(q.i, m): break
            ch = x.code(text, q.i)
            if x.is_(ch, ord('|')): push(); row(x.add(s.r.vertical_position.line.val, 1))
            elif x.is_(ch, ord('^')):
                push(); q.i = x.add(q.i, 1)
                if x.is_lt(q.i, m):
                    ch = x.code(text, q.i)
                    for k, a in (('B', 'bold'), ('I', 'italic'), ('U', 'underline')):
                        if x.is_(ch, ord(k)): s.r = s.r.with_(a, neg(s.r.f[a])); break
            else: s.r = s.r.with_('text', x.cat(s.r.text, x.ch(text, q.i)))
            q.i = x.add(q.i, 1)
        push()
    return s.subs

# ---------------------------------------------------------------- proofs
def hook_hmsf(env):
    def h(it, this, args, node):
        it.c.stats.modular.add('sub::Time::from_hmsf')
        return spec_hmsf(env.x, *[it.load(a) if isinstance(a, LV) else a for a in args])
    env.hook('sub::Time::from_hmsf', h)
def t_time(env):
    hook_hmsf(env)
    r = env.var('reader', 'sub::STLTextReader'); t = env.fresh(('str',), 't')
    env.spec(gen(time_of)(env.x, t)); env.compare('time', env.call('sub::STLTextReader::time', r, [t]))
def t_set(env):
    r = env.var('reader', 'sub::STLTextReader'); old = env.it.load(r); n, v = env.fresh(('str',), 'name'), env.fresh(('str',), 'value')
    env.spec(gen(settings)(env.x, old._subtitle, n, v)); out = env.call('sub::STLTextReader::set', r, [n, v])
    env.compare('set', out, [('settings', lambda: env.it.load(r)._subtitle, lambda: env.prod.spec_out[1]), ('subtitles', lambda: env.it.load(r)._subs, old._subs)], result=False)
def t_read(env):
    x = env.x
    env.modular('sub::STLTextReader::time', 'spruce_time', OTIME, exc=BAD, this=False)
    s = env.var('in', ('rec', 'istream'), env.textstream()); env.spec(spec_read(x, env.textstream()))
    out = env.construct('sub::STLTextReader::STLTextReader', 'sub::STLTextReader', [s])
    if out[0] == 'ret': out = ('ret', out[1]._subs)
    env.compare('STLTextReader', out)
def tasks():
    T = ['stl_text_reader', 'font_size', 'raw_subtitle']
    return [Task('time', T, t_time, 60), Task('set', T, t_set, 60), Task('read', T, t_read, 300)]

# ---------------------------------------------------------------- replay
def rt(rng):
    if rng.random() < .04: return rng.choice(['', '1', '00:00:01', '00:00:01:x', '0:0:0:0:0', '1:2:3', ':::', '00:00:01.00', 'x:y:z:w', '99999999999:0:0:0'])
    return rng.choice(['%02d:%02d:%02d:%02d', '%02d:%02d:%02d:%02d', '%d:%d:%d:%d']) % (rng.choice([0, 1, 23, rng.randint(0, 99)]), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 29))
def rtext(rng, mined):
    return ''.join(rng.choice(['Hello', 'a', ' ', '|', '|', '||', '^B', '^I', '^U', '^B^I', '^', '^X', '^^', '^|', ',', 'caf\xc3\xa9', '$', '//', '^b', 'x,y', '^UU', '=', '| |', '^I|']) for _ in range(rng.choice([1, 2, 3, 5, 8]) if rng.random() < .97 else rng.choice([20, 60, 200])))
def rfile(rng, mined):
    out = []
    b = gens.big(rng)
    for n in range(b): out.append('%02d:%02d:%02d:%02d , %02d:%02d:%02d:%02d , ' % tuple(rng.randrange(q) for q in (24, 60, 60, 25) * 2) + rng.choice(['Hello', '^Iit^I', 'Line %d|two' % n, 'a|' * 20, 'long text ' * 40]))
    for _ in range(0 if b else rng.choice([0, 1, 2, 3, 5, rng.randint(1, 10)])):
        k = rng.randrange(12)
        if k < 3: out.append('%s%s%s%s' % (rng.choice(['$FontName', '$Bold', '$Italic', '$Underlined', '$FontSize', '$Bold', '$VertAlign', '$Color', '$bold']), rng.choice(['=', ' = ', ' =', '= ']), rng.choice(['True', 'True', 'False', 'true', 'Arial', '12', '72', '-3', 'A B', '']) if rng.random() < .9 else rng.choice(['a=b', '= ', ' True ', 'TRUE']), rng.choice(['', ' ', '\t'])))
        elif k == 3: out.append(rng.choice(['// comment', '//', '', ' ', 'junk', ',', ',,', 'a,b,c', '$', '$Bold', '$FontSize', '/ /', '0,0,0', ',00:00:01:00,x', '00:00:01:00,00:00:02:00', '00:00:01:00,00:00:02:00,', '00:00:01:00 , 00:00:02:00', '1,00:00:02:00,x']))
        else: out.append('%s%s,%s%s%s,%s%s' % (rng.choice(['', '', ' ']), rt(rng), rng.choice(['', '', ' ']), rt(rng), rng.choice(['', ' ']), rng.choice(['', ' ', '']), rtext(rng, mined)))
    return [l.replace('\n', ' ') for l in out]
def fix(l): return l
def cases(rng, n, mined):
    while True:
        ls = rfile(rng, mined)
        if rng.random() < .7: ls = [l if not l.startswith('$FontSize') else '$FontSize = %d' % rng.randint(-5, 99) for l in ls]
        t = rng.choice(['\n', '\n', '\n', '\r\n', '\r\n', '\r\r\n']).join(ls) + rng.choice(['\n', '\n', '', '\n\n'])
        e = conc(spec_read, lines_of(t, 's')); yield Case('stltext ' + hexs(t), e, 'Spruce STL text %r' % t[:300])
