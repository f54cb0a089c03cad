"""C01: Time comparisons agree with the instants the times represent."""
from .common import *
from vc.check import Case
CASES = 3000

def normal(x, t, signed=False):
    """precondition: a whole number of seconds plus less than a second's worth of frames at a sane rate"""
    if not signed: x.assume(x.le(0, t._seconds))
    x.assume(x.le(0, t._frames))
    if x.has(t._rate):
        r = t._rate.val
        for lo, v, hi in ((1, r.numerator, 1000000), (1, r.denominator, 2000)):
            x.assume(x.le(lo, v)); x.assume(x.le(v, hi))
        x.assume(x.lt(x.mul(t._frames, r.denominator), r.numerator))

def frac(x, t):
    return x.rdiv(x.mul(t._frames, t._rate.val.denominator), t._rate.val.numerator)

def inst_cmp(x, a, b):
    """-1, 0, 1 as conditions (less, equal, greater) of the two instants, cross-multiplied to stay in the integers"""
    ra, rb = a._rate.val, b._rate.val
    # instant of t = seconds + frames * den / num
    na, nb = ra.numerator, rb.numerator
    A = x.mul(x.add(x.mul(a._seconds, na), x.mul(a._frames, ra.denominator)), nb)
    B = x.mul(x.add(x.mul(b._seconds, nb), x.mul(b._frames, rb.denominator)), na)
    return A, B

def spec_rel(x, a, b, op):
    normal(x, a, True); normal(x, b, True)
    ha, hb = x.has(a._rate), x.has(b._rate)
    if ha != hb:
        # comparable only when whole seconds already decide an ordering
        if op in ('==', '!=') or x.is_(a._seconds, b._seconds): x.throw('sub::UnknownFrameRateError')
        return x.lt(a._seconds, b._seconds) if op == '<' else x.lt(b._seconds, a._seconds)
    if not ha:
        if op in ('==', '!='):
            e = conj(x.eq(a._seconds, b._seconds), x.eq(a._frames, b._frames))
            return e if op == '==' else neg(e)
        if not x.is_(a._seconds, b._seconds): return x.lt(a._seconds, b._seconds) if op == '<' else x.lt(b._seconds, a._seconds)
        return x.lt(a._frames, b._frames) if op == '<' else x.lt(b._frames, a._frames)
    # both rated: the instants decide.  Whole seconds decide if they differ (lemma order_lemma), else the fractions.
    ra, rb = a._rate.val, b._rate.val
    P = x.mul(x.mul(a._frames, ra.denominator), rb.numerator); Q = x.mul(x.mul(b._frames, rb.denominator), ra.numerator)
    if op in ('==', '!='):
        e = conj(x.eq(a._seconds, b._seconds), x.eq(P, Q))
        return e if op == '==' else neg(e)
    if not x.is_(a._seconds, b._seconds): return x.lt(a._seconds, b._seconds) if op == '<' else x.lt(b._seconds, a._seconds)
    return x.lt(P, Q) if op == '<' else x.lt(Q, P)

def oracle(a, b, op):
    """the same statement, independently, on exact rationals"""
    if a._rate.has != b._rate.has:
        if op in ('==', '!=') or a._seconds == b._seconds: return ('throw', 'sub::UnknownFrameRateError')
    def inst(t): return t._seconds + Fraction(t._frames * t._rate.val.denominator, t._rate.val.numerator) if t._rate.has else (t._seconds, t._frames)
    if a._rate.has != b._rate.has: x, y = a._seconds, b._seconds
    else: x, y = inst(a), inst(b)
    return ('ret', {'<': x < y, '>': x > y, '==': x == y, '!=': x != y}[op])

def istime(f): return 'Time' in f['params'][0]['t']

def mk(op):
    def run(env):
        a = env.fresh('sub::Time', 'a'); b = env.fresh('sub::Time', 'b')
        normal(env.x, a, True); normal(env.x, b, True)
        out = env.call('sub::operator' + op, None, [a, b], pred=istime)
        env.spec(gen(spec_rel)(env.x, a, b, op))
        env.compare('operator' + op, out)
    return run

def order_lemma(env):
    """for normalised rated times: the lexicographic decision used by the contract is the order of the instants"""
    c = env.c
    sa, sb = z3.Ints('sa sb'); na, nb, fa, fb = z3.Ints('na nb fa fb')   # fa = frames * denominator
    for v in (na, nb): c.assume(v > 0)
    c.assume(z3.And(fa >= 0, fa < na, fb >= 0, fb < nb))
    A = (sa * na + fa) * nb; B = (sb * nb + fb) * na
    # A/(na nb) and B/(na nb) are the instants
    c.oblige('instants: equal seconds', z3.Implies(sa == sb, z3.And((A < B) == (fa * nb < fb * na), (A == B) == (fa * nb == fb * na))))
    d = z3.Int('d'); c.assume(d >= 1)
    xs = (sa * na + fa) * nb; ys = ((sa + d) * nb + fb) * na
    # ys - xs = d na nb + fb na - fa nb  and  fa nb < na nb
    c.oblige('instants: step a', fa * nb < na * nb)
    c.oblige('instants: step b', z3.And(d * (na * nb) >= na * nb, fb * na >= 0))
    c.oblige('instants: difference', ys - xs == d * (na * nb) + fb * na - fa * nb)
    c.oblige('instants: fewer whole seconds is earlier', xs < ys)
    env.spec(_none()); env.prod.finish()

def _none():
    return None
    yield

def order_laws(env):
    """strict order on times of one kind: irreflexive, asymmetric, transitive, total with ==, (lemma over the contracts)"""
    c = env.c
    s = [z3.Int('s%d' % k) for k in range(3)]; n = [z3.Int('n%d' % k) for k in range(3)]; g = [z3.Int('g%d' % k) for k in range(3)]
    for v in n: c.assume(v > 0)
    P = lambda i, j: g[i] * n[j]
    lt_ = lambda i, j: z3.Or(s[i] < s[j], z3.And(s[i] == s[j], P(i, j) < P(j, i)))
    eq_ = lambda i, j: z3.And(s[i] == s[j], P(i, j) == P(j, i))
    c.oblige('irreflexive', z3.Not(lt_(0, 0)))
    c.oblige('asymmetric', z3.Not(z3.And(lt_(0, 1), lt_(1, 0))))
    c.oblige('trichotomy', z3.Or(lt_(0, 1), eq_(0, 1), lt_(1, 0)))
    # transitivity: g0 n1 < g1 n0 and g1 n2 < g2 n1  =>  g0 n1 n2 < g1 n0 n2 < g2 n1 n0, divide by n1
    h1 = z3.And(s[0] == s[1], s[1] == s[2], P(0, 1) < P(1, 0), P(1, 2) < P(2, 1))
    c.oblige('step1', z3.Implies(h1, z3.And((g[0] * n[1]) * n[2] < (g[1] * n[0]) * n[2])))
    c.oblige('step2', z3.Implies(h1, (g[1] * n[2]) * n[0] < (g[2] * n[1]) * n[0]))
    c.oblige('step3', z3.Implies(h1, n[1] * (g[0] * n[2]) < n[1] * (g[2] * n[0])))
    c.oblige('transitive', z3.Implies(z3.And(lt_(0, 1), lt_(1, 2)), lt_(0, 2)))
    env.spec(_none()); env.prod.finish()

def tasks():
    return [Task('operator' + op, ['sub_time'], mk(op), 90, timeout=20000) for op in ('<', '>', '==', '!=')] + [
        Task('order_lemma', ['sub_time'], order_lemma, 60, timeout=20000), Task('order_laws', ['sub_time'], order_laws, 60, timeout=20000)]

RATES = [(24, 1), (25, 1), (30, 1), (48, 1), (50, 1), (60, 1), (1000, 1), (24000, 1001), (30000, 1001), (60000, 1001), (1000000, 1), (12, 1), (15, 1), (96, 1), (120, 1), (90000, 1), (999983, 1999)]
def rrate(rng, mined=None):
    if rng.random() < 0.75: return RATES[rng.randrange(len(RATES))]
    return rng.randint(1, 1000000), rng.choice([1, 1, 2, 1001, rng.randint(1, 2000)])
def rtime(rng, rated=None, mined=None, smax=None, nums=()):
    if rated is None: rated = rng.random() < 0.85
    s = rng.choice([0, 1, 59, 60, 3599, 3600, 86399, rng.randint(0, 100000), rng.randint(0, (1 << 31) - 1)])
    if smax: s = s % smax
    if nums and rng.random() < .2: s = rng.choice(nums) % (smax or (1 << 31))
    if not rated: return tm(s, rng.choice([0, 1, 24, rng.randint(0, 1000)]))
    n, d = rrate(rng)
    m = (n - 1) // d
    return tm(s, rng.choice([0, m, m // 2, rng.randint(0, m)]), rat(n, d))

def mkcase(a, b):
    x = COps(); normal(x, a, True); normal(x, b, True)
    rs = {op: oracle(a, b, op) for op in ('<', '>', '==', '!=')}
    # one driver call evaluates all four, the first exception (if any) wins
    exp = None
    for op in ('<', '>', '==', '!='):
        if rs[op][0] == 'throw': exp = rs[op]; break
    if exp is None: exp = ('ret', [rs[o][1] for o in ('<', '>', '==', '!=')])
    return Case('tcmp %s %s' % (toks(a), toks(b)), exp, 'compare %s with %s' % (js(a), js(b)))

def cases(rng, n, mined):
    nums = [v for v in mined['nums']]
    while True:
        a = rtime(rng, nums=nums)
        b = rtime(rng, rated=a._rate.has if rng.random() < .9 else None, nums=nums)
        if rng.random() < .75: b = tm(a._seconds, b._frames, b._rate)
        if rng.random() < .3 and a._rate.has and b._rate.has:
            # the same instant (or its neighbour) at another rate
            ra, rb = a._rate.val, b._rate.val
            f = Fraction(a._frames * ra.denominator, ra.numerator) * rb.numerator / rb.denominator
            b = tm(a._seconds, max(0, min((rb.numerator - 1) // rb.denominator, int(f) + rng.choice([0, 0, 1, -1]))), rb)
        if rng.random() < .1 and a._rate.has:
            k = rng.randint(2, 9); b = tm(a._seconds, a._frames, rat(min(1000000, a._rate.val.numerator * k), a._rate.val.denominator))
        yield mkcase(a, b)

def _time_of(m, p):
    I = lambda k, d=0: int(m.get(k, d))
    has = [k for k in m if k.startswith(p + '._rate') and m[k] in ('True', 'False')]
    rate = None
    if any(m[k] == 'True' for k in has): rate = rat(*[int(m.get(k, '1')) for k in sorted([k for k in m if k.startswith(p + '._rate') and k.split('.')[-1] in ('numerator', 'denominator')], reverse=True)])
    return tm(I(p + '._seconds'), I(p + '._frames'), rate)
def from_model(name, m):
    if name.startswith('operator'): return [mkcase(_time_of(m, 'a'), _time_of(m, 'b'))]
