"""C03: adding and scaling times."""
from .common import *
from .c01 import normal, rtime, rrate, _none, _time_of
from vc.check import Case
CASES = 4000
E20 = Fraction(1, 1 << 18)

def t_max(env):
    x, c = env.x, env.c
    a = env.fresh('sub::Rational', 'a'); b = env.fresh('sub::Rational', 'b')
    for r in (a, b):
        for lo, v, hi in ((1, r.numerator, 1000000), (1, r.denominator, 2000)): x.assume(x.le(lo, v)); x.assume(x.le(v, hi))
    out = env.call('sub::max', None, [a, b])
    env.spec(_none()); env.prod.finish()
    m = out[1]; P = mul(a.numerator, b.denominator); Q = mul(b.numerator, a.denominator)
    c.oblige('max: the greater of the two rates', conj(z3.Implies(lift(P) > lift(Q), zbool(env.S.eq(m, a))), z3.Implies(lift(P) < lift(Q), zbool(env.S.eq(m, b))), disj(env.S.eq(m, a), env.S.eq(m, b))))

def t_rat(env):
    x, c = env.x, env.c
    a = env.fresh('sub::Rational', 'a'); b = env.fresh('sub::Rational', 'b')
    out = env.call('sub::operator==', None, [a, b], pred=lambda f: 'Rational' in f['params'][0]['t'])
    env.spec(gen(lambda: conj(env.S.eq(a.numerator, b.numerator), env.S.eq(a.denominator, b.denominator)))()); env.compare('Rational ==', out)

def t_add(env):
    """add: total milliseconds of both, at the greater rate, to the nearest frame"""
    x, c = env.x, env.c
    env.it.fp = 'rounded'
    a = env.fresh('sub::Time', 'a'); b = env.fresh('sub::Time', 'b')
    ha = x.has(a._rate); hb = x.has(b._rate)
    lv = env.var('a', 'sub::Time', a)
    if not (ha and hb):
        out = env.call('sub::Time::add', lv, [b]); env.spec(gen(lambda: x.throw('sub::ProgrammingError'))()); env.compare('add without rates', out); return
    normal(x, a); normal(x, b)
    # by contract: all_as_seconds = whole seconds + ms/1000 to within rounding; max; from_frames
    pick = z3.Bool('first_is_greater'); 
    r = a._rate.val if c.branch(pick) else b._rate.val
    ma, mb = z3.Ints('ms_a ms_b'); c.assume(z3.And(ma >= 0, ma <= 1000, mb >= 0, mb <= 1000))
    ya = zreal(lift(a._seconds)) + zreal(ma) / 1000; yb = zreal(lift(b._seconds)) + zreal(mb) / 1000
    st = {'n': 0}
    def secs(it, this, args, node):
        # which operand?
        v = it.load(this)
        first = env.S.eq(v, a) is True
        y = ya if first else yb
        st['n'] += 1
        f = z3.Real('secs_%s' % ('a' if first else 'b'))
        e = (y + 1) * z3.RealVal(str(Fraction(1, 1 << 51)))
        c.assume(z3.And(f - y <= e, y - f <= e))
        return f
    env.hook('sub::Time::all_as_seconds', secs)
    env.hook('sub::max', lambda it, this, args, node: r)
    q = z3.Int('fps'); c.assume(z3.And(q >= 1, q <= 1000000))
    env.hook('sub::Rational::fraction', lambda it, this, args, node: zreal(q))
    whole = z3.Bool('whole_rate')
    got = []
    def from_frames(it, this, args, node):
        v = [it.load(z) if isinstance(z, LV) else z for z in args]
        got.append(v)
        if not c.branch(whole): raise CppThrow('sub::ProgrammingError')
        return tm(z3.Int('qs'), z3.Int('qf'), v[1])
    env.hook('sub::Time::from_frames', from_frames)
    exact = (ya + yb) * zreal(q)
    c.assume(exact <= (1 << 31) - 2)
    # bounded magnitude keeps the rounding error far below half a frame
    out = env.call('sub::Time::add', lv, [b])
    env.spec(_none()); env.prod.finish()
    c.oblige('add: one conversion from frames', len(got) == 1)
    if not got: return
    F = zreal(lift(got[0][0]))
    e = z3.RealVal(str(E20))
    c.oblige('add: nearest frame of the sum', z3.And(F - exact <= z3.RealVal('1/2') + e, exact - F <= z3.RealVal('1/2') + e))
    env.eq('add: at the greater rate', got[0][1], r)
    if out[0] == 'throw': c.oblige('add: throws only for a fractional rate', conj(out[1] == 'sub::ProgrammingError', z3.Not(whole))); return
    env.eq('add: result', env.it.load(lv), tm(z3.Int('qs'), z3.Int('qf'), r))

def t_scale(env):
    x, c = env.x, env.c
    env.it.fp = 'rounded'
    t = env.fresh('sub::Time', 't'); lv = env.var('t', 'sub::Time', t)
    f = z3.Real('f'); c.assume(z3.And(f >= 0, f <= 1000000))
    if not x.has(t._rate):
        out = env.call('sub::Time::scale', lv, [f]); env.spec(gen(lambda: x.throw('sub::ProgrammingError'))()); env.compare('scale without a rate', out); return
    normal(x, t); r = t._rate.val
    q = z3.Int('fps'); c.assume(z3.And(q >= 1, q <= 1000000))
    whole = z3.Bool('whole_rate')
    if not c.branch(whole):
        env.hook('sub::Rational::integer', lambda it, this, args, node: False)
        out = env.call('sub::Time::scale', lv, [f]); env.spec(gen(lambda: x.throw('sub::ProgrammingError'))()); env.compare('scale at a fractional rate', out); return
    env.hook('sub::Rational::integer', lambda it, this, args, node: True)
    env.hook('sub::Rational::fraction', lambda it, this, args, node: zreal(q))
    env.hook('sub::Rational::integer_fraction', lambda it, this, args, node: q)
    y = z3.Real('secs'); c.assume(z3.And(y >= 0))
    env.hook('sub::Time::all_as_seconds', lambda it, this, args, node: y)
    exact = y * f
    c.assume(exact <= 10000000)
    out = env.call('sub::Time::scale', lv, [f])
    env.spec(_none()); env.prod.finish()
    if out[0] == 'throw': c.oblige('scale: no exception', False); return
    v = env.it.load(lv)
    S_, F_ = zreal(lift(v._seconds)), zreal(lift(v._frames))
    c.oblige('scale: frames stay within a second', z3.And(F_ >= 0, F_ < zreal(q)))
    total = S_ * zreal(q) + F_
    ex = exact * zreal(q)
    e = z3.RealVal(str(Fraction(1, 100)))   # 2^-53 relative on up to 10^13 frames
    c.oblige('scale: nearest frame of the scaled instant', z3.And(total - ex <= z3.RealVal('1/2') + e, ex - total <= z3.RealVal('1/2') + e))
    env.eq('scale: keeps the rate', v._rate, t._rate)

def tasks():
    u = ['sub_time', 'rational']
    return [Task('max', u, t_max, 90, timeout=20000), Task('rational_eq', u, t_rat, 30), Task('add', u, t_add, 200, timeout=40000), Task('scale', u, t_scale, 200, timeout=40000)]

def msof(t):
    q = t._rate.val
    y = Fraction(t._frames * q.denominator * 1000, q.numerator)
    return y

def totals(got, q): return got[0] * q + got[1]

def mk_add(a, b):
    ra, rb = a._rate.val if a._rate.has else None, b._rate.val if b._rate.has else None
    line = 'tadd %s %s' % (toks(a), toks(b)); note = '%s + %s' % (js(a), js(b))
    if ra is None or rb is None: return Case(line, ('throw', 'sub::ProgrammingError'), note)
    fa, fb = Fraction(ra.numerator, ra.denominator), Fraction(rb.numerator, rb.denominator)
    top = max(fa, fb)
    if top.denominator != 1: return Case(line, ('throw', 'sub::ProgrammingError'), note)
    top = int(top)
    lo = a._seconds + b._seconds + (msof(a) + msof(b) - 1) / 1000; hi = lo + Fraction(2, 1000)
    if hi * top >= (1 << 31) - 2: return None
    ex = (a._seconds + b._seconds) * 1000 + msof(a) + msof(b)
    exactms = msof(a).denominator == 1 and msof(b).denominator == 1
    y = ex * top / 1000
    def j(got):
        if got[0] != 'ret': return 'unexpected %s' % (got[:2],)
        s, f, r = got[1]
        if r is None or Fraction(r[0], r[1]) != top: return 'rate of the result is %s' % (r,)
        if not 0 <= f < top: return 'frame number %d at rate %d' % (f, top)
        T = s * top + f
        if exactms:
            if abs(T - y) > Fraction(1, 2) + E20: return 'expected %s frames, got %s' % (float(y), T)
        elif abs(T - y) > Fraction(1, 2) + E20 + Fraction(top, 1000): return 'expected about %s frames, got %s' % (float(y), T)
    return Case(line, j, note)

def mk_scale(t, f):
    import struct
    f = struct.unpack('f', struct.pack('f', f))[0]
    line = 'tscale %s %.17g' % (toks(t), f); note = 'scale %s by %r' % (js(t), f)
    if not t._rate.has or t._rate.val.numerator % t._rate.val.denominator: return Case(line, ('throw', 'sub::ProgrammingError'), note)
    q = t._rate.val.numerator // t._rate.val.denominator
    ms = msof(t)
    y = (t._seconds + ms / 1000) * Fraction(f)
    if y > 10000000: return None
    slack = Fraction(51, 100) if ms.denominator == 1 else Fraction(51, 100) + Fraction(q, 1000) * Fraction(f)
    def j(got):
        if got[0] != 'ret': return 'unexpected %s' % (got[:2],)
        s, fr, r = got[1]
        if r != [t._rate.val.numerator, t._rate.val.denominator]: return 'the rate changed to %s' % (r,)
        if not 0 <= fr < q: return 'frame number %d at rate %d' % (fr, q)
        if abs(s * q + fr - y * q) > slack: return 'expected about %s frames, got %s' % (float(y * q), s * q + fr)
    return Case(line, j, note)

def cases(rng, n, mined):
    nums = mined['nums']
    while True:
        a = rtime(rng, rated=True if rng.random() < .95 else None, smax=rng.choice([100, 100000, 1000000, 1 << 31]), nums=nums)
        if rng.random() < .6:
            b = rtime(rng, rated=True if rng.random() < .95 else None, smax=rng.choice([2, 100, 100000, 1 << 31]), nums=nums)
            if rng.random() < .4: b = tm(b._seconds, min(b._frames, a._frames), a._rate)
            yield mk_add(a, b)
        elif rng.random() < .1:
            r, q = rat(*rrate(rng)), rat(*rrate(rng))
            if rng.random() < .3: q = r
            A, B = Fraction(r.numerator, r.denominator), Fraction(q.numerator, q.denominator)
            def j(got, A=A, B=B, r=r, q=q):
                if got[0] != 'ret': return 'unexpected %s' % (got[:2],)
                g = got[1]
                if g[0] != (js(r) == js(q)) or abs(g[1] - float(A)) > 1e-6 * float(A) or g[2] != (A.denominator == 1) or g[3] != int(A) or Fraction(*g[4]) != max(A, B): return 'got %s' % (g,)
            yield Case('rat %s %s' % (toks(r), toks(q)), j, 'rates %s %s' % (js(r), js(q)))
        else:
            yield mk_scale(a, rng.choice([0.0, 1.0, 0.5, 2.0, 24 / 25., 25 / 24., 0.999, 1.001, 1000 / 1001., rng.random() * 3, rng.random() * 100]))
