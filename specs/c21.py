"""C21: colours, sizes, names and numbers."""
from .common import *
from . import gens
from vc.check import Case
CASES = 5000

# ---------------------------------------------------------------- contracts
def from_rgb_hex(x, s):
    ok, v = x.hexbytes(s, 3)
    if not x.b(ok): x.throw('sub::XMLError')
    return colour(*[x.rdiv(c, 255) for c in v])
def from_rgba_hex(x, s):
    ok, v = x.hexbytes(s, 4)
    if not x.b(ok): x.throw('sub::XMLError')
    return colour(*[x.rdiv(c, 255) for c in v[:3]])
def proportional_of(x, f, h):
    if x.has(f._proportional): return f._proportional.val
    if not x.has(f._points): x.throw('no size')
    return x.rdiv(f._points.val, h)
def points_of(x, f, h):
    if x.has(f._points): return f._points.val
    if not x.has(f._proportional): x.throw('no size')
    return x.rtrunc(x.rmul(f._proportional.val, h))
def specified(x, f): return x.has(f._proportional) or x.has(f._points)
def opt_is(x, a, b):
    ha, hb = x.has(a), x.has(b)
    if ha != hb: return False
    return not ha or x.is_(a.val, b.val)
def fs_eq(x, a, b): return opt_is(x, a._proportional, b._proportional) and opt_is(x, a._points, b._points)
def effect_of(x, s):
    if x.is_(s, 'none'): return none(EFF)
    if x.is_(s, 'border'): return some(EFF, 0)
    if x.is_(s, 'shadow'): return some(EFF, 1)
    x.throw('sub::XMLError')
def vref_of(x, s):
    if x.is_(s, 'top'): return TOP_OF_SCREEN
    if x.is_(s, 'center'): return VCENTRE
    if x.is_(s, 'bottom'): return BOTTOM_OF_SCREEN
    x.throw('sub::XMLError')

# ---------------------------------------------------------------- proofs
def t_rgb(env):
    s = env.fresh(('str',), 's')
    env.spec(gen(from_rgb_hex)(env.x, s)); env.compare('from_rgb_hex', env.call('sub::Colour::from_rgb_hex', None, [s]))
def t_rgba(env):
    s = env.fresh(('str',), 's')
    env.spec(gen(from_rgba_hex)(env.x, s)); env.compare('from_rgba_hex', env.call('sub::Colour::from_rgba_hex', None, [s]))
def t_prop(env):
    f = env.fresh('sub::FontSize', 'f'); h = env.fresh(T_INT, 'h'); env.x.assume(lt(0, h))
    env.c.assume(disj(f._proportional.has, f._points.has))
    env.spec(gen(proportional_of)(env.x, f, h)); env.compare('FontSize::proportional', env.call('sub::FontSize::proportional', f, [h], pred=lambda d: len(d['params']) == 1))
def t_points(env):
    x = env.x; env.it.int_ob = False
    f = env.fresh('sub::FontSize', 'f'); h = env.fresh(T_INT, 'h'); x.assume(lt(0, h))
    env.c.assume(disj(f._proportional.has, f._points.has))
    env.c.assume(disj(f._points.has, z3.And(f._proportional.val * z3.ToReal(h) < (1 << 31), f._proportional.val * z3.ToReal(h) > -(1 << 31))))
    env.spec(gen(points_of)(x, f, h)); env.compare('FontSize::points', env.call('sub::FontSize::points', f, [h], pred=lambda d: len(d['params']) == 1))
def t_access(env):
    f = env.fresh('sub::FontSize', 'f')
    env.spec(gen(lambda: f._proportional)()); env.compare('proportional()', env.call('sub::FontSize::proportional', f, [], pred=lambda d: len(d['params']) == 0))
    env.spec(gen(lambda: f._points)()); env.compare('points()', env.call('sub::FontSize::points', f, [], pred=lambda d: len(d['params']) == 0))
    env.spec(gen(specified)(env.x, f)); env.compare('specified', env.call('sub::FontSize::specified', f, []))
def t_make(env):
    p = env.fresh(T_INT, 'p'); q = env.fresh(T_DBL, 'q')
    env.spec(gen(lambda: fontsize(pts=p))()); env.compare('from_points', env.call('sub::FontSize::from_points', None, [p]))
    env.spec(gen(lambda: fontsize(prop=q))()); env.compare('from_proportional', env.call('sub::FontSize::from_proportional', None, [q]))
    f = env.var('f', 'sub::FontSize'); old = env.it.load(f)
    env.call('sub::FontSize::set_points', f, [p])
    env.eq('set_points', f, old.with_('_points', some(T_INT, p)))
    env.call('sub::FontSize::set_proportional', f, [q])
    env.eq('set_proportional', f, fontsize(prop=q, pts=p))
def t_fseq(env):
    a, b = env.fresh('sub::FontSize', 'a'), env.fresh('sub::FontSize', 'b')
    env.spec(gen(fs_eq)(env.x, a, b)); env.compare('FontSize ==', env.call('sub::operator==', None, [a, b], pred=lambda f: 'FontSize' in f['pt'][0]))
def t_coleq(env):
    a, b = env.fresh('sub::Colour', 'a'), env.fresh('sub::Colour', 'b')
    env.spec(gen(lambda x: x.is_(a.r, b.r) and x.is_(a.g, b.g) and x.is_(a.b, b.b))(env.x)); env.compare('Colour ==', env.call('sub::operator==', None, [a, b], pred=lambda f: 'Colour' in f['pt'][0]))
def t_effect(env):
    s = env.fresh(('str',), 's'); env.spec(gen(effect_of)(env.x, s)); env.compare('string_to_effect', env.call('sub::string_to_effect', None, [s]))
def t_vref(env):
    s = env.fresh(('str',), 's'); env.spec(gen(vref_of)(env.x, s)); env.compare('string_to_vertical_reference', env.call('sub::string_to_vertical_reference', None, [s]))

def t_numbers(env):
    """raw_convert / locale_convert in any locale"""
    x = env.x; env.it.names = set(env.it.names) | {'raw_convert_body'}
    def call(q, targ, arg, extra):
        return env.call(q, None, [arg] + extra, pred=lambda f: f['key'].startswith(q + '<' + targ))
    S_ = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
    s = env.fresh(('str',), 's')
    def num(x, conv):
        ok, v = conv(s)
        return v if x.b(ok) else 0
    for q, extra in (('sub::locale_convert', [0, False]), ('sub::raw_convert', [16])):
        env.spec(gen(num)(x, x.scan_int)); env.compare(q + '<int>(string)', call(q, 'int,', s, extra))
        if q == 'sub::raw_convert': env.c.assume(z3.Not(uf('foreign_point', 'bool', [s])))          # e.g. "1,5" where "," is the decimal point
        env.spec(gen(num)(x, x.scan_real if q == 'sub::raw_convert' else x.scan_real_here)); env.compare(q + '<float>(string)', call(q, 'float,', s, extra))
    for t, lo, hi in (('int', -(1 << 31), (1 << 31) - 1), ('long', -(1 << 63), (1 << 63) - 1), ('unsigned long', 0, (1 << 64) - 1), ('unsigned long long', 0, (1 << 64) - 1)):
        n = z3.Int('n_' + t.replace(' ', '_')); env.c.assume(z3.And(n >= lo, n <= hi))
        env.spec(gen(lambda: x.int_str(n))()); env.compare('locale_convert<string>(%s)' % t, call('sub::locale_convert', S_ + ',' + t + '>', n, [0, False]))
        if t == 'unsigned long': env.spec(gen(lambda: x.int_str(n))()); env.compare('raw_convert<string>(%s)' % t, call('sub::raw_convert', S_ + ',' + t + '>', n, [16]))

def tasks():
    return [Task('numbers', ['raw_convert', 'locale_convert'], t_numbers, 60), Task('rgb', ['colour'], t_rgb, 60), Task('rgba', ['colour'], t_rgba, 60), Task('proportional', ['font_size'], t_prop, 60), Task('points', ['font_size'], t_points, 60),
            Task('accessors', ['font_size'], t_access, 60), Task('make', ['font_size'], t_make, 60), Task('font size ==', ['font_size'], t_fseq, 60), Task('colour ==', ['colour'], t_coleq, 60),
            Task('effect', ['effect'], t_effect, 60), Task('vref', ['vertical_reference'], t_vref, 60)]

# ---------------------------------------------------------------- replay
NAMES = ['none', 'border', 'shadow', 'top', 'center', 'bottom', 'centre', 'None', 'TOP', '', ' none', 'top ', 'borders', 'sha', 'middle', 'none\0', '0', 'bord']
def rfs(rng):
    k = rng.randrange(3)
    p = rng.choice([0.0, 0.5, 0.0625, 1.0, 0.25, 7 / 128.]); q = rng.choice([0, 1, 42, 72, 90, rng.randint(0, 400)])
    return fontsize(p if k != 1 else None, q if k != 0 else None)
def case_hex(rng, mined):
    k = rng.randrange(8)
    n = rng.choice([6, 8, 6, 8, rng.randint(0, 9)])
    s = ''.join(rng.choice('0123456789abcdefABCDEF') for _ in range(n))
    if k == 0 and s: i = rng.randrange(len(s)); s = s[:i] + rng.choice('gzG#. xX') + s[i+1:]
    if k == 1: s = gens.word(rng, mined)
    if k == 2: s = rng.choice(['#', '&H', '']) + s
    if 'x' in s.lower() or '-' in s or '+' in s: raise OutOfScope('prefixes')
    if any(ord(c) > 127 or c == '\0' for c in s): raise OutOfScope('bytes')
    return s
def locul(v):
    return Case('locul %d' % v, lambda g: None if g[0] == 'ret' and all(z == str(v) for z in g[1][:3]) and (v >= 1 << 63 or g[1][3] == str(v)) else 'number %d is written %s' % (v, g[1:]), 'unsigned numbers as text')
def cases(rng, n, mined):
    for s in NAMES:
        yield Case('effect ' + hexs(s), conc(effect_of, s), 'effect name %r' % s); yield Case('vref ' + hexs(s), conc(vref_of, s), 'vertical reference %r' % s)
    for v in (0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1): yield locul(v)
    for v in (0, 999, 1000, 1234567, (1 << 64) - 1): yield Case('comma locul %d' % v, locul(v).exp, 'unsigned numbers as text in a locale with a decimal comma')
    for s in ('3.5', '0.25', '-12.75', '1000.5', '7', '.5'):
        yield Case('comma rawconv ' + hexs(s), ('ret', [COps().raw_int(s), COps().raw_real(s)]), 'number parsed from %r in a locale with a decimal comma' % s)
    for v in (0, 1, -1, (1 << 31) - 1, -(1 << 31), 1000, 1000000): yield Case('locint %d' % v, ('ret', [js(str(v)), v]), 'integers as text and back')
    while True:
        k = rng.randrange(10)
        if k == 0:
            s = case_hex(rng, mined); yield Case('rgb ' + hexs(s), conc(from_rgb_hex, s), 'colour %r' % s)
        elif k == 1:
            s = case_hex(rng, mined); yield Case('rgba ' + hexs(s), conc(from_rgba_hex, s), 'colour %r' % s)
        elif k in (2, 3):
            f = rfs(rng); h = rng.choice([1, 2, 100, 288, 1080, 720, 800, rng.randint(1, 5000)])
            yield Case('fs %s %d' % (toks(f), h), ('ret', [True, conc(proportional_of, f, h)[1], conc(points_of, f, h)[1]]), 'font size %s on a screen of %d points' % (js(f), h))
        elif k == 4:
            f = rfs(rng) if rng.random() < .6 else fontsize(); yield Case('fsspec ' + toks(f), conc(specified, f), 'font size is specified')
        elif k == 5:
            a = rfs(rng); b = rng.choice([a, rfs(rng), fontsize(), a.with_('_points', none(T_INT)), a.with_('_proportional', none(T_DBL))]); yield Case('fseq %s %s' % (toks(a), toks(b)), conc(fs_eq, a, b), 'font size ==')
        elif k == 6:
            a = gens.rcol(rng); b = rng.choice([a, gens.rcol(rng), a.with_(rng.choice('rgb'), 0.75)]); b2 = conc(lambda x: a.r == b.r and a.g == b.g and a.b == b.b); yield Case('coleq %s %s' % (toks(a), toks(b)), b2, 'colour ==')
        elif k == 7:
            p = rng.randint(0, 500); q = rng.choice([0.25, 0.5, 1.0, 0.0]); yield Case('fsmk %d %r' % (p, q), ('ret', [js(fontsize(pts=p)), js(fontsize(prop=q))]), 'make font sizes')
        elif k == 8:
            v = rng.choice([rng.randint(-(1 << 31), (1 << 31) - 1), rng.randint(-2000, 2000)]); yield Case('locint %d' % v, ('ret', [js(str(v)), v]), 'integers as text and back')
        else:
            if rng.random() < .5: yield locul(rng.getrandbits(rng.randint(1, 64)))
            else:
                s = rng.choice(['12', '-7', '0', '3.5', '0.25', '1000', '007', ' 4', '+3', '12.', '1e2', '', 'x', '12abc', '99999', '1,5', '2.75rest', str(rng.randint(-99999, 99999)), '%g' % (rng.randint(-4000, 4000) / 16.0)])
                i = COps().raw_int(s); f = COps().raw_real(s)
                yield Case('rawconv ' + hexs(s), ('ret', [i, f]), 'number parsed from %r' % s)
                if ',' not in s: yield Case('comma rawconv ' + hexs(s), ('ret', [i, f]), 'number parsed from %r in a locale with a decimal comma' % s)
