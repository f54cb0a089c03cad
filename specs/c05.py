"""C05: SubRip / WebVTT timestamps."""
from .common import *
from . import gens
from vc.check import Case
from vc.sym import NULL
CASES = 8000
OTIME = ('opt', TIME)

def time_of(x, t, sep):
    """h:m:s<sep>ms with whole numbers -> that time; anything else -> (nothing, what was expected)"""
    a = x.split(t, ':')
    if not x.is_(x.vlen(a), 3): return none(TIME), 'time in the format h:m:s,ms'
    b = x.split(x.vget(a, 2), sep)
    if not x.is_(x.vlen(b), 2): return none(TIME), x.cat(x.cat('time in the format h:m:s', sep), 'ms')
    vals = []
    for s, what in ((x.vget(a, 0), 'hour'), (x.vget(a, 1), 'minute'), (x.vget(b, 0), 'second'), (x.vget(b, 1), 'millisecond')):
        ok, v = x.lexical_int(s)
        if not x.b(ok): return none(TIME), 'integer %s value' % what
        vals.append(v)
    h, m, s, ms = vals
    # precondition: the total fits an int
    if x.conc: x.assume(abs(h) <= 590000 and abs(m) <= 20000 and abs(s) <= 100000, 'precondition of from_hms')
    return some(TIME, from_hms_c(x, h, m, s, ms)), None

def t_time(env, which):
    x = env.x; hook_from_hms(env)
    t = env.fresh(('str',), 't'); sep = env.fresh(('str',), 'sep') if which == 'any' else which
    if which == 'any': x.assume(x.lt(0, x.slen(sep)))
    e = env.var('expected', ('str',)); old = env.it.load(e)
    ptr = env.c.branch(z3.Bool('wants_expected'))
    env.spec(gen(time_of)(x, t, sep))
    out = env.call('sub::SubripReader::convert_time', None, [t, sep, Ptr(lv=e) if ptr else NULL])
    so = env.prod.finish()
    env.c.oblige('convert_time returns', conj(out[0] == 'ret', so[0] == 'ret'))
    env.eq('convert_time: time', out[1], so[1][0])
    if ptr: env.eq('convert_time: what was expected', e, old if so[1][1] is None else so[1][1])

def tasks(): return [Task('convert_time ' + n, ['subrip_reader', 'sub_time'], (lambda w: lambda env: t_time(env, w))(w), 120) for n, w in (('SubRip', ','), ('WebVTT', '.'))]

def stamp(rng, mined=None):
    k = rng.randrange(12)
    h, m, s, ms = rng.choice([0, 1, 12, 99, rng.randint(0, 200)]), rng.choice([0, 59, 5, 60, 99, rng.randint(0, 70)]), rng.choice([0, 59, 61, rng.randint(0, 70)]), rng.choice([0, 1, 40, 999, 1000, rng.randint(0, 2000)])
    sep = rng.choice([',', '.'])
    t = '%02d:%02d:%02d%s%03d' % (h, m, s, sep, ms)
    if k < 6: return t
    if k == 6: return '%d:%d:%d%s%d' % (h, m, s, sep, ms)
    if k == 7: i = rng.randrange(len(t) + 1); return t[:i] + rng.choice([' ', ':', ',', '.', '-', 'a', '+', 'x', '0']) + t[i:]
    if k == 8: i = rng.randrange(len(t)); return t[:i] + t[i+1:]
    if k == 9: i = rng.randrange(len(t)); return t[:i] + rng.choice(':,. -+a0') + t[i+1:]
    if k == 10: return rng.choice(['', ':', '::', '::,', '0:0:0', '0:0:0,', '0:0,0:0', '-1:0:0,0', '1:-2:3,4', '99999999999:0:0,0', '0:0:0,99999999999', '0:0:0x,0', '0x1:0:0,0', '1:2:3,4,5', '1:2:3:4', '00:00:01,500 ', ' 00:00:01,500'])
    if mined and mined['strs']: return rng.choice(mined['strs'])
    return t[::-1]
def cases(rng, n, mined):
    while True:
        t = stamp(rng, mined); sep = ',' if ',' in t and rng.random() < .8 else rng.choice([',', '.', '.', ',.'])
        r = conc(time_of, t, sep)[1]
        e = [js(r[0]), 'unset' if r[1] is None else r[1], js(r[0])]
        yield Case('srttime %s %s' % (hexs(t), hexs(sep)), ('ret', e), 'time stamp %r with separator %r' % (t, sep))
