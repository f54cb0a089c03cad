"""C17: positions compare and convert consistently; equality of pieces is equality of all their parts."""
from .common import *
from . import gens
from .c21 import opt_is, fs_eq
from .c01 import spec_rel
from fractions import Fraction
from vc.check import Case
CASES = 6000

# ---------------------------------------------------------------- contracts
def part(x, v):
    """the proportion a position gives, if it gives one"""
    if x.has(v.proportional): return some(T_DBL, v.proportional.val)
    if x.has(v.line) and x.has(v.lines): return some(T_DBL, x.rdiv(v.line.val, v.lines.val))
    return none(T_DBL)
def fraction(x, v):
    if not x.has(v.reference): return x.real(0)
    p = part(x, v)
    if not p.has: return x.real(0)
    r = v.reference.val
    if x.is_(r, BOTTOM_OF_SCREEN): return x.rsub(1, p.val)
    if x.is_(r, VCENTRE): return x.radd(p.val, Fraction(1, 2) if not x.conc else 0.5)
    return p.val
def before(x, a, b): return x.lt(fraction(x, a), fraction(x, b))
def both(x, *os): return all(x.has(o) for o in os)
def v_eq(x, a, b):
    """the same place in the same terms"""
    if not both(x, a.reference, b.reference): return False
    if both(x, a.proportional, b.proportional): return x.is_(a.proportional.val, b.proportional.val) and x.is_(a.reference.val, b.reference.val)
    if not both(x, a.line, b.line): return False
    if both(x, a.lines, b.lines) and not x.is_(a.lines.val, b.lines.val): return False
    return x.is_(a.line.val, b.line.val) and x.is_(a.reference.val, b.reference.val)
def h_eq(x, a, b):
    """closer than one pixel at 2K"""
    if not x.is_(a.reference, b.reference): return False
    d = x.rsub(a.proportional, b.proportional); e = 1 / 1998. if x.conc else Fraction(1, 1998)
    return conj(x.lt(d, e), x.lt(-e, d)) if not x.conc else abs(d) < e
def col_eq(x, a, b): return all(x.is_(a.f[k], b.f[k]) for k in 'rgb')
def opt_col(x, a, b):
    ha, hb = x.has(a), x.has(b)
    return ha == hb and (not ha or col_eq(x, a.val, b.val))
def block_eq(x, a, b):
    return (x.is_(a.text, b.text) and opt_is(x, a.font, b.font) and fs_eq(x, a.font_size, b.font_size) and opt_is(x, a.effect, b.effect) and opt_col(x, a.effect_colour, b.effect_colour)
            and col_eq(x, a.colour, b.colour) and all(x.is_(a.f[k], b.f[k]) for k in ('bold', 'italic', 'underline')))

def all_equal(name, eq):
    def f(x, a, b):
        """two lists: as many elements, and each pair equal"""
        n = x.vlen(a)
        if not x.is_(n, x.vlen(b)): return False
        st = State(i=0)
        L = x.loop(name, st, inv=lambda s: [le(0, s.i), le(s.i, n)], variant=lambda s: sub(n, s.i))
        while True:
            yield L
            if not x.is_lt(st.i, n): return True
            if not x.b(x.fn(name, ('bool',), eq, x.vget(a, st.i), x.vget(b, st.i))): return False
            st.i = x.add(st.i, 1)
    return f
def line_eq(x, a, b):
    if not x.b(x.fn('h_eq', ('bool',), h_eq, a.horizontal_position, b.horizontal_position)): return False
    if not x.b(x.fn('v_eq', ('bool',), v_eq, a.vertical_position, b.vertical_position)): return False
    return (yield from all_equal('block_eq', block_eq)(x, a.blocks, b.blocks))
def time_eq(x, a, b): return spec_rel(x, a, b, '==')
def opt_time(x, a, b):
    ha, hb = x.has(a), x.has(b)
    return ha == hb and (not ha or x.b(x.fn('time_eq', ('bool',), time_eq, a.val, b.val)))
def subtitle_eq(x, a, b):
    for k in ('from', 'to'):
        if not x.b(x.fn('time_eq', ('bool',), time_eq, a.f[k], b.f[k])): return False
    for k in ('fade_up', 'fade_down'):
        if not opt_time(x, a.f[k], b.f[k]): return False
    return (yield from all_equal('line_eq', line_eq)(x, a.lines, b.lines))

# ---------------------------------------------------------------- proofs
def op_eq(env, t, name, mod=None):
    """an operator== by the contract proved for it"""
    for f in env.it.db.fn.values():
        if f['q'].split('::')[-1] != 'operator==' or ty(f['pt'][0])[-1] != ('rec', t): continue
        mem = bool(f.get('cls'))
        def h(it, this, args, node):
            a = [it.load(v) if isinstance(v, LV) else v for v in (([this] if mem else []) + list(args))]
            if t == 'sub::Time' and it.c.branch(a[0]._rate.has != a[1]._rate.has): raise CppThrow('sub::UnknownFrameRateError', ())
            return env.S.ufv('c_' + name, ('bool',), *a)
        env.it.hooks[f['key']] = h
def t_leq(env):
    a, b = env.fresh(LINE, 'a'), env.fresh(LINE, 'b')
    for t, n in ((HPOS, 'h_eq'), (VPOS, 'v_eq'), (BLK, 'block_eq')): op_eq(env, t[1], n)
    env.spec(line_eq(env.x, a, b)); env.compare('Line ==', env.call('sub::operator==', None, [a, b], pred=lambda f: 'Line' in f['pt'][0]))
def t_seq(env):
    a, b = env.fresh(SUBT, 'a'), env.fresh(SUBT, 'b')
    for k in ('from', 'to', 'fade_up', 'fade_down'):
        p, q = a.f[k], b.f[k]
        if k[0] == 'f' and k != 'from': p, q = p.val, q.val
        env.c.assume(p._rate.has == q._rate.has)
    for t, n in ((TIME, 'time_eq'), (LINE, 'line_eq')): op_eq(env, t[1], n)
    env.spec(subtitle_eq(env.x, a, b)); env.compare('Subtitle ==', env.call('sub::operator==', None, [a, b], pred=lambda f: 'Subtitle' in f['pt'][0]))
def pos(env, n, lines=True):
    v = env.fresh(VPOS, n)
    if lines: env.x.assume(disj(neg(v.lines.has), neg(v.line.has), v.lines.val != 0))
    return v
def t_frac(env):
    v = pos(env, 'v'); env.spec(gen(fraction)(env.x, v)); env.compare('fraction_from_screen_top', env.call('sub::VerticalPosition::fraction_from_screen_top', v, []))
def t_less(env):
    a, b = pos(env, 'a'), pos(env, 'b'); env.spec(gen(before)(env.x, a, b)); env.compare('VerticalPosition <', env.call('sub::VerticalPosition::operator<', a, [b]))
def t_veq(env):
    a, b = env.fresh(VPOS, 'a'), env.fresh(VPOS, 'b'); env.spec(gen(v_eq)(env.x, a, b)); env.compare('VerticalPosition ==', env.call('sub::VerticalPosition::operator==', a, [b]))
def t_heq(env):
    a, b = env.fresh(HPOS, 'a'), env.fresh(HPOS, 'b'); env.spec(gen(h_eq)(env.x, a, b)); env.compare('HorizontalPosition ==', env.call('sub::HorizontalPosition::operator==', a, [b]))
def t_beq(env):
    a, b = env.fresh(BLK, 'a'), env.fresh(BLK, 'b'); env.spec(gen(block_eq)(env.x, a, b)); env.compare('Block ==', env.call('sub::operator==', None, [a, b], pred=lambda f: 'Block' in f['pt'][0]))
def tasks():
    S = ['subtitle', 'font_size', 'colour']
    return [Task('fraction', ['vertical_position'], t_frac, 60), Task('order', ['vertical_position'], t_less, 60), Task('vertical ==', ['vertical_position'], t_veq, 60),
            Task('horizontal ==', ['horizontal_position'], t_heq, 60), Task('block ==', S, t_beq, 100), Task('line ==', S + ['horizontal_position', 'vertical_position'], t_leq, 100), Task('subtitle ==', S + ['sub_time'], t_seq, 100)]

# ---------------------------------------------------------------- replay
def rv(rng):
    o = lambda v, p: v if rng.random() < p else None
    return vpos(prop=o(rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, -0.5, 1.5]), .5), line=o(rng.randint(-2, 30), .6), lines=o(rng.choice([1, 2, 4, 8, 16, 32]), .6), ref=o(rng.randrange(4), .85))
def near(rng, v):
    k = rng.choice(['proportional', 'line', 'lines', 'reference'])
    w = rv(rng); return v.with_(k, w.f[k])
def rblock(rng, mined):
    r = gens.rraw(rng, mined=mined)
    return Rec('sub::Block', {k: r.f[k] for k in ('text', 'font', 'font_size', 'effect', 'effect_colour', 'colour', 'bold', 'italic', 'underline')})
def in_sub(b): 
    return Rec('sub::Subtitle', {'from': tm(1, 0, rat(24, 1)), 'to': tm(2, 0, rat(24, 1)), 'fade_up': none(TIME), 'fade_down': none(TIME), 'lines': vec(LINE, [Rec('sub::Line', {'horizontal_position': hpos(1, 0.0), 'vertical_position': vpos(line=1, lines=20, ref=0), 'blocks': vec(BLK, [b])})])})
def rline(rng, mined):
    return Rec('sub::Line', {'horizontal_position': hpos(rng.randrange(3), 0.25), 'vertical_position': rv(rng), 'blocks': vec(BLK, [rblock(rng, mined) for _ in range(rng.choice([0, 1, 2, 3]))])})
def rwhole(rng, mined):
    t = lambda: rng.choice([tm(rng.randint(0, 9), rng.randint(0, 11), rat(24, 1)), tm(2, 6, rat(12, 1)), tm(2, 12, rat(24, 1))]); o = lambda: some(TIME, t()) if rng.random() < .5 else none(TIME)
    return Rec('sub::Subtitle', {'from': t(), 'to': t(), 'fade_up': o(), 'fade_down': o(), 'lines': vec(LINE, [rline(rng, mined) for _ in range(rng.choice([0, 1, 1, 2, 4]))])})
def lst(v): return [s.v for s in v.segs]
def vary(rng, a, mined):
    """one part changed"""
    k = rng.choice(['from', 'to', 'fade_up', 'fade_down', 'lines', 'lines', 'lines'])
    w = rwhole(rng, mined)
    if k != 'lines': return a.with_(k, w.f[k])
    ls = lst(a.lines); q = rng.randrange(5)
    if q == 0: return a.with_('lines', vec(LINE, ls[:-1]))
    if q == 1: return a.with_('lines', vec(LINE, ls + [rline(rng, mined)]))
    if not ls: return a
    i = rng.choice([len(ls) - 1, rng.randrange(len(ls))]); l = ls[i]; m = rline(rng, mined); bs = lst(l.blocks)
    if q == 2: f = rng.choice(sorted(l.f)); l = l.with_(f, m.f[f])
    elif q == 3: l = l.with_('blocks', vec(BLK, bs[:-1] if rng.random() < .5 else bs + [rblock(rng, mined)]))
    elif bs: j = rng.choice([len(bs) - 1, rng.randrange(len(bs))]); b = bs[j]; n = rblock(rng, mined); f = rng.choice(sorted(b.f)); bs[j] = b.with_(f, n.f[f]); l = l.with_('blocks', vec(BLK, bs))
    ls[i] = l
    return a.with_('lines', vec(LINE, ls))
def cases(rng, n, mined):
    while True:
        k = rng.randrange(8)
        if k >= 6:
            a = rwhole(rng, mined); b = rng.choice([a, vary(rng, a, mined), vary(rng, a, mined), vary(rng, vary(rng, a, mined), mined), rwhole(rng, mined)])
            yield Case('blockeq %s %s' % (toks(a), toks(b)), conc(subtitle_eq, a, b), '== of subtitles %s and %s' % (js(a), js(b)))
        elif k == 0:
            v = rv(rng); yield Case('vfrac ' + toks(v), conc(fraction, v), 'fraction from the top of %s' % js(v))
        elif k in (1, 2):
            a = rv(rng); b = rng.choice([a, rv(rng), near(rng, a), near(rng, near(rng, a))]); yield Case('vcmp %s %s' % (toks(a), toks(b)), ('ret', [conc(v_eq, a, b)[1], conc(before, a, b)[1]]), '== and < of %s and %s' % (js(a), js(b)))
        elif k == 3:
            a = gens.rhpos(rng); d = rng.choice([0.0, 0.0, 0.0003, -0.0003, 0.001, -0.001, 0.25, 0.0006, -0.0006]); b = rng.choice([hpos(a.reference, a.proportional + d), gens.rhpos(rng)]); yield Case('heq %s %s' % (toks(a), toks(b)), conc(h_eq, a, b), '== of %s and %s' % (js(a), js(b)))
        else:
            a = rblock(rng, mined); b = rblock(rng, mined); f = sorted(a.f)
            if rng.random() < .8: keep = rng.choice(f); b = a.with_(keep, b.f[keep])
            if rng.random() < .15: b = a
            yield Case('blockeq %s %s' % (toks(in_sub(a)), toks(in_sub(b))), conc(block_eq, a, b), '== of blocks %s and %s' % (js(a), js(b)))
