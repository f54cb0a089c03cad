"""C02: a time survives construction, decomposition, rate conversion and printing."""
from .common import *
from .c01 import normal, rtime, rrate, _none, _time_of
from vc.check import Case
CASES = 4000
EPS = Fraction(1, 1 << 20)

def small(x, v, n): x.assume(x.le(0, v)); x.assume(x.lt(v, n))

def spec_hmsf(x, h, m, s, f, rate):
    return tm(x.add(x.add(x.mul(h, 3600), x.mul(m, 60)), s), f, rate)

def hms_pre(x, h, m, s):
    small(x, h, 500000); small(x, m, 1000000); small(x, s, 1000000)

def t_hmsf(env):
    x = env.x
    h, m, s, f = [env.fresh(T_INT, k) for k in 'hmsf']
    hms_pre(x, h, m, s)
    rate = env.fresh(('opt', RAT), 'rate')
    out = env.call('sub::Time::from_hmsf', None, [h, m, s, f, rate])
    env.spec(gen(spec_hmsf)(x, h, m, s, f, rate)); env.compare('from_hmsf', out)

def t_hms(env):
    x = env.x
    h, m, s, f = [env.fresh(T_INT, k) for k in ('h', 'm', 's', 'ms')]
    hms_pre(x, h, m, s)
    out = env.call('sub::Time::from_hms', None, [h, m, s, f])
    env.spec(gen(spec_hmsf)(x, h, m, s, f, some(RAT, rat(1000, 1)))); env.compare('from_hms', out)

def t_parts(env):
    """hours, minutes, seconds: mixed-radix digits of the whole seconds"""
    x, c = env.x, env.c
    t = env.fresh('sub::Time', 't'); x.assume(x.le(0, t._seconds))
    lv = env.var('t', 'sub::Time', t)
    h = env.call('sub::Time::hours', lv, [])[1]; m = env.call('sub::Time::minutes', lv, [])[1]; s = env.call('sub::Time::seconds', lv, [])[1]
    c.oblige('hours*3600 + minutes*60 + seconds is the number of seconds', env.S.eq(add(add(mul(h, 3600), mul(m, 60)), s), t._seconds))
    c.oblige('0 <= minutes < 60', conj(le(0, m), lt(m, 60))); c.oblige('0 <= seconds < 60', conj(le(0, s), lt(s, 60))); c.oblige('0 <= hours', le(0, h))
    env.spec(_none()); env.prod.finish()

def t_from_frames(env):
    x, c = env.x, env.c
    f = env.fresh(T_INT, 'f'); r = env.fresh('sub::Rational', 'r')
    x.assume(x.le(0, f)); x.assume(x.le(1, r.numerator)); x.assume(x.le(0, r.denominator))
    out = env.call('sub::Time::from_frames', None, [f, r])
    env.spec(_none()); env.prod.finish()
    if out[0] == 'throw':
        c.oblige('from_frames: refuses only a rate that is not a whole number', conj(S.eq_str(out[1], 'sub::ProgrammingError') if False else out[1] == 'sub::ProgrammingError',
                 disj(env.S.eq(r.denominator, 0), neg(env.S.eq(tmod(r.numerator, z3.If(zint(r.denominator) == 0, z3.IntVal(1), zint(r.denominator))), 0)))))
        return
    t = out[1]
    c.oblige('from_frames: only whole-number rates are accepted', conj(neg(env.S.eq(r.denominator, 0)), env.S.eq(tmod(r.numerator, r.denominator), 0)))
    q = tdiv(r.numerator, r.denominator)
    env.eq('from_frames: keeps the rate', t._rate, some(RAT, r))
    c.oblige('from_frames: frames stay below one second', conj(le(0, t._frames), lt(t._frames, q)))
    c.oblige('from_frames: no frame is lost', env.S.eq(add(mul(t._seconds, q), t._frames), f))

def frames_post(c, out, f, n, d, rn, rd):
    """R is the nearest whole frame count to frames*den/num*rate; exact when that is a whole number"""
    N = zreal(f) * zreal(d) * zreal(rn); D = zreal(n) * zreal(rd)
    R = zreal(out)
    return N, D, R

def t_frames_at(env):
    x, c = env.x, env.c
    env.it.fp = 'rounded'
    t = env.fresh('sub::Time', 't'); r = env.fresh('sub::Rational', 'r')
    if not x.has(t._rate):
        out = env.call('sub::Time::frames_at', env.var('t', 'sub::Time', t), [r]); env.spec(gen(lambda: x.throw('sub::UnknownFrameRateError'))()); env.compare('frames_at without a rate', out); return
    normal(x, t)
    for lo, v, hi in ((1, r.numerator, 1000000), (1, r.denominator, 2000)): x.assume(x.le(lo, v)); x.assume(x.le(v, hi))
    q = t._rate.val
    y = z3.Real('y')    # the exact count
    c.assume(y * zreal(lift(q.numerator)) * zreal(lift(r.denominator)) == zreal(lift(t._frames)) * zreal(lift(q.denominator)) * zreal(lift(r.numerator)))
    c.assume(z3.And(y >= 0, y <= 1000000))  # f*d < n and rate <= 10^6
    c.assume(lift(t._frames) < 1000000)      # f <= f*d < n <= 10^6
    fd, frn, nrd = z3.Ints('fd frn nrd')
    c.oblige('range lemmas', z3.And(lift(t._frames) * lift(q.denominator) < 1000000, lift(t._frames) * lift(q.denominator) >= 0))
    N = lift(t._frames) * lift(q.denominator) * lift(r.numerator); D = lift(q.numerator) * lift(r.denominator)
    c.oblige('range lemma N', z3.And(N >= 0, N < 1000000 * 1000000)); c.oblige('range lemma D', z3.And(D >= 1, D <= 2000000000))
    c.oblige('quotient', zreal(N) / zreal(D) == y)
    k = z3.Int('k'); whole = c.branch(z3.Bool('whole'))
    if whole: c.assume(y == zreal(k)); c.assume(N == k * D)
    else: c.assume(z3.ToReal(z3.ToInt(y)) != y)
    out = env.call('sub::Time::frames_at', env.var('t', 'sub::Time', t), [r])
    env.spec(_none()); env.prod.finish()
    if out[0] == 'throw': c.oblige('frames_at: does not throw with a rate', False); return
    R = zreal(lift(out[1])); e = z3.RealVal(str(EPS))
    c.oblige('frames_at: nearest frame', z3.And(R - y <= z3.RealVal('1/2') + e, y - R <= z3.RealVal('1/2') + e))
    if whole: c.oblige('frames_at: exact when the instant is a whole number of frames', R == zreal(k))

def t_ms(env):
    """milliseconds() is frames_at(1000)"""
    x = env.x
    t = env.fresh('sub::Time', 't')
    F = z3.Function('frames_at', z3.IntSort(), z3.IntSort(), z3.IntSort())
    env.hook('sub::Time::frames_at', lambda it, this, args, node: F(lift(it.load(args[0]).numerator if isinstance(args[0], LV) else args[0].numerator), lift(it.load(args[0]).denominator if isinstance(args[0], LV) else args[0].denominator)))
    out = env.call('sub::Time::milliseconds', env.var('t', 'sub::Time', t), [])
    env.spec(gen(lambda: F(1000, 1))()); env.compare('milliseconds', out)

def t_secs(env):
    x, c = env.x, env.c
    env.it.fp = 'rounded'
    t = env.fresh('sub::Time', 't'); x.assume(x.le(0, t._seconds)); ms = z3.Int('ms'); c.assume(z3.And(ms >= 0, ms <= 1000000))
    env.hook('sub::Time::milliseconds', lambda it, this, args, node: ms)
    out = env.call('sub::Time::all_as_seconds', env.var('t', 'sub::Time', t), [])
    env.spec(_none()); env.prod.finish()
    y = zreal(lift(t._seconds)) + zreal(ms) / 1000
    c.oblige('all_as_seconds: seconds plus milliseconds', z3.And(zreal(lift(out[1])) - y <= z3.RealVal(str(EPS)), y - zreal(lift(out[1])) <= z3.RealVal(str(EPS))))

def spec_print(x, t):
    s = t._seconds
    h = x.div(s, 3600); m = x.div(x.mod(s, 3600), 60); q = x.mod(s, 60)
    o = ''
    for v in (h, m, q): o = x.cat(o, x.cat(x.pad(x.int_str(v), 2, '0'), ':'))
    o = x.cat(o, x.int_str(t._frames))
    if x.has(t._rate):
        o = x.cat(o, x.cat(x.cat(' @ ', x.int_str(t._rate.val.numerator)), x.cat('/', x.int_str(t._rate.val.denominator))))
    return o

def t_print(env):
    x = env.x
    t = env.fresh('sub::Time', 't'); x.assume(x.le(0, t._seconds))
    s = t._seconds
    h = tdiv(s, 3600); m = tdiv(tmod(s, 3600), 60)
    # accessors by contract (task parts)
    H, M, Q = z3.Ints('H M Q')
    env.c.assume(z3.And(H == lift(h), M == lift(m), Q == lift(tmod(s, 60))))
    for n, v in (('hours', h), ('minutes', m), ('seconds', tmod(s, 60))):
        env.hook('sub::Time::' + n, lambda it, this, args, node, v=v: v)
    o = env.var('o', 'std::ostream', Rec('ostream', {'text': '', 'w': 0, 'fill': ' '}))
    out = env.call('sub::operator<<', None, [o, t], pred=lambda f: 'Time' in f['params'][1]['t'])
    env.spec(gen(spec_print)(x, t)); env.compare('operator<<', out, effects=[('printed text', lambda: env.it.load(o).f['text'], lambda: env.prod.spec_out[1])], result=False)

def tasks():
    u = ['sub_time', 'rational']
    return [Task('from_hmsf', u, t_hmsf, 60), Task('from_hms', u, t_hms, 60), Task('parts', u, t_parts, 60), Task('from_frames', u, t_from_frames, 90, timeout=20000),
            Task('frames_at', u, t_frames_at, 120, timeout=30000), Task('milliseconds', u, t_ms, 60), Task('all_as_seconds', u, t_secs, 90, timeout=20000), Task('print', u, t_print, 60)]

def near(y, exact_ok=True):
    def j(got):
        if got[0] != 'ret': return 'unexpected %s' % (got[:2],)
        R = got[1]
        if y.denominator == 1 and R != y: return 'expected exactly %s, got %s' % (y, R)
        if abs(R - y) > Fraction(1, 2) + EPS: return 'expected about %s, got %s' % (float(y), R)
    return j

def cases(rng, n, mined):
    nums = mined['nums']
    while True:
        k = rng.randrange(8)
        I = lambda hi: rng.choice([0, 1, rng.randint(0, 99), rng.randint(0, hi)] + [v for v in nums if v <= hi][:40])
        if k == 0:
            h, m, s, f = I(400000), I(900000), I(900000), rng.choice([0, rng.randint(0, 1000), -rng.randint(0, 9)])
            r = none(RAT) if rng.random() < .3 else some(RAT, rat(*rrate(rng)))
            yield Case('tfromhmsf %d %d %d %d %s' % (h, m, s, f, toks(r)), ('ret', js(conc(spec_hmsf, h, m, s, f, r)[1])), 'from_hmsf')
        elif k == 1:
            h, m, s, f = I(400000), I(900000), I(900000), rng.randint(-10, 5000)
            yield Case('tfromhms %d %d %d %d' % (h, m, s, f), ('ret', js(tm_ms(h * 3600 + m * 60 + s, f))), 'from_hms')
        elif k == 2:
            t = rtime(rng, nums=nums); s = t._seconds
            yield Case('tacc ' + toks(t), ('ret', [s // 3600, s // 60 % 60, s % 60]), 'hours/minutes/seconds of %d' % s)
        elif k == 3:
            nn, d = rrate(rng); f = rng.choice([0, 1, nn - 1, nn, nn + 1, rng.randint(0, 10**6), rng.randint(0, (1 << 31) - 1)])
            if rng.random() < .05: d = 0
            exp = ('throw', 'sub::ProgrammingError') if d == 0 or nn % d else ('ret', [f // (nn // d), f % (nn // d), [nn, d]])
            yield Case('tfromf %d %d %d' % (f, nn, d), exp, 'from_frames (%d, %d/%d)' % (f, nn, d))
        elif k in (4, 5):
            t = rtime(rng, nums=nums); r = rat(*rrate(rng))
            if not t._rate.has: yield Case('tframes %s %s' % (toks(t), toks(r)), ('throw', 'sub::UnknownFrameRateError'), 'frames_at'); continue
            q = t._rate.val
            y = Fraction(t._frames * q.denominator * r.numerator, q.numerator * r.denominator)
            yield Case('tframes %s %s' % (toks(t), toks(r)), near(y), 'frames_at %s at %s' % (js(t), js(r)))
        elif k == 6:
            t = rtime(rng, nums=nums)
            if not t._rate.has: yield Case('tms ' + toks(t), ('throw', 'sub::UnknownFrameRateError'), 'milliseconds'); continue
            q = t._rate.val; y = Fraction(t._frames * q.denominator * 1000, q.numerator)
            def j(got, y=y, t=t):
                if got[0] != 'ret': return 'unexpected %s' % (got[:2],)
                w = near(y)(('ret', got[1][0]))
                if w: return w
                if abs(got[1][1] - (t._seconds + got[1][0] / 1000.0)) > 1e-5: return 'all_as_seconds %r' % got[1][1]
            yield Case('tms ' + toks(t), j, 'milliseconds of %s' % js(t))
        else:
            t = rtime(rng, nums=nums)
            yield Case('tprint ' + toks(t), conc(spec_print, t), 'print %s' % js(t))
