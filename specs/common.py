"""Shared vocabulary of the contracts."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc.sym import *
from vc import sym as S
from vc.prod import Task, State, SpecThrow, gen, CppThrow
from vc.ops import Ops, OutOfScope
from vc.replay import conc, js, toks, hexs, same, none, some, COps

TIME = ('rec', 'sub::Time'); RAT = ('rec', 'sub::Rational'); COL = ('rec', 'sub::Colour'); RAW = ('rec', 'sub::RawSubtitle')
SUBT = ('rec', 'sub::Subtitle'); LINE = ('rec', 'sub::Line'); BLK = ('rec', 'sub::Block')
VPOS = ('rec', 'sub::VerticalPosition'); HPOS = ('rec', 'sub::HorizontalPosition'); FSZ = ('rec', 'sub::FontSize')
VREF = ('enum', 'sub::VerticalReference'); EFF = ('enum', 'sub::Effect')
T_DBL = ('real', 'float')
TOP_OF_SCREEN, VCENTRE, BOTTOM_OF_SCREEN, TOP_OF_SUBTITLE = 0, 1, 2, 3

def rat(n, d): return Rec('sub::Rational', {'numerator': n, 'denominator': d})
def tm(s, f, rate=None):
    if rate is None: rate = none(RAT)
    if isinstance(rate, Rec): rate = some(RAT, rate)
    return Rec('sub::Time', {'_seconds': s, '_frames': f, '_rate': rate})
def tm_ms(s, ms): return tm(s, ms, rat(1000, 1))
def colour(r, g, b): return Rec('sub::Colour', {'r': r, 'g': g, 'b': b})
def fontsize(prop=None, pts=None):
    return Rec('sub::FontSize', {'_proportional': none(T_DBL) if prop is None else some(T_DBL, prop), '_points': none(T_INT) if pts is None else some(T_INT, pts)})
def vpos(prop=None, line=None, lines=None, ref=None):
    o = lambda t, v: none(t) if v is None else some(t, v)
    return Rec('sub::VerticalPosition', {'proportional': o(T_DBL, prop), 'line': o(T_INT, line), 'lines': o(T_INT, lines), 'reference': o(VREF, ref)})
def hpos(ref=1, prop=0): return Rec('sub::HorizontalPosition', {'reference': ref, 'proportional': prop})
def ri(x, i):
    """an integer literal as a number of the floating-point kind"""
    return x.real(i)
def white(x): return colour(ri(x, 1), ri(x, 1), ri(x, 1))
def vec(t, xs): return Vec(t, [El(v) for v in xs])
def opt_get(x, o, d): return o.val if x.has(o) else d

def from_hms_c(x, h, m, s, ms):
    """contract of Time::from_hms (verified by C02); precondition: the seconds fit an int"""
    return tm_ms(x.add(x.mul(h, 3600), x.add(x.mul(m, 60), s)), ms)
def hook_from_hms(env):
    def h(it, this, args, node):
        it.c.stats.modular.add('sub::Time::from_hms')
        return from_hms_c(env.x, *[it.load(a) if isinstance(a, LV) else a for a in args])
    env.hook('sub::Time::from_hms', h)

def raw_default(x):
    """a piece nothing has been said about"""
    return Rec('sub::RawSubtitle', {'text': '', 'font': none(T_STR), 'font_size': fontsize(), 'effect': none(EFF), 'effect_colour': none(COL), 'colour': white(x), 'bold': False, 'italic': False, 'underline': False,
        'horizontal_position': hpos(1, ri(x, 0)), 'vertical_position': vpos(), 'from': tm(0, 0), 'to': tm(0, 0), 'fade_up': none(TIME), 'fade_down': none(TIME)})
BOM = '\xef\xbb\xbf'
def strip_bom(x, s):
    return x.substr(s, 3) if x.b(x.starts(s, BOM)) else s
def nobom(x, s): return x.fn('nobom', T_STR, strip_bom, s)
def hook_bom(env):
    def h(it, this, args, node):
        it.c.stats.modular.add('sub::remove_unicode_bom')
        o = it.load(args[0])
        it.c.oblige('optional-has-value@remove_unicode_bom argument', o.has)
        it.store(args[0], some(T_STR, it.S.ufv('c_nobom', T_STR, o.val)))
    env.hook('sub::remove_unicode_bom', h)
def lines_of(text, mode):
    """the lines a reader sees: from a string (s) or a file (f)"""
    if '\0' in text: raise OutOfScope('NUL')
    p = text.split('\n')
    if p[-1] == '': p.pop(); last = '\n'
    else: last = ''
    if mode == 's': return p
    return [l + '\n' for l in p[:-1]] + ([p[-1] + last] if p else [])
