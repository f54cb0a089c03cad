"""Random concrete values for the replay side."""
from .common import *
from .c01 import rtime, rrate
WORDS = ['hello', 'world', 'a', '', ' ', 'x y', 'caf\xc3\xa9', '<b>', '{', 'I', '123', 'foo-bar', '\xe2\x99\xaa']
def flt(rng): return rng.choice([0.0, 0.25, 0.5, 1.0, 0.125, 0.75, rng.randint(0, 64) / 64.0])
def rcol(rng): return colour(*[rng.choice([0.0, 1.0, 0.5, rng.randint(0, 255) / 255.0]) for _ in range(3)])
def f32(v):
    import struct
    return struct.unpack('f', struct.pack('f', v))[0]
def rvpos(rng, complete=None):
    k = rng.randrange(5) if complete is None else rng.randrange(3)
    if k == 0: return vpos(prop=flt(rng), ref=rng.randrange(4))
    if k in (1, 2): return vpos(line=rng.randint(0, 5), lines=rng.choice([23, 23, 12]), ref=rng.randrange(4))
    if k == 3: return vpos(line=rng.randint(0, 3), ref=rng.randrange(4))
    return vpos(prop=flt(rng) if rng.random() < .5 else None, line=rng.randint(0, 3) if rng.random() < .5 else None, lines=23 if rng.random() < .5 else None, ref=rng.randrange(4) if rng.random() < .5 else None)
def rhpos(rng): return hpos(rng.randrange(3), rng.choice([0.0, 0.0, 0.25, 0.5]))
def rfont(rng):
    return fontsize(flt(rng) if rng.random() < .3 else None, rng.randint(1, 100) if rng.random() < .4 else None)
def word(rng, mined=None):
    if mined and rng.random() < .2 and mined['strs']: return rng.choice(mined['strs'])
    return rng.choice(WORDS)
def rraw(rng, frm=None, to=None, mined=None, rated=True):
    o = lambda t, v, p=.3: some(t, v) if rng.random() < p else none(t)
    return Rec('sub::RawSubtitle', {
        'text': word(rng, mined), 'font': o(T_STR, rng.choice(['Arial', '', 'Foo'])), 'font_size': rfont(rng), 'effect': o(EFF, rng.randrange(2)),
        'effect_colour': o(COL, rcol(rng)), 'colour': rcol(rng), 'bold': rng.random() < .4, 'italic': rng.random() < .4, 'underline': rng.random() < .4,
        'horizontal_position': rhpos(rng), 'vertical_position': rvpos(rng), 'from': frm or rtime(rng, rated), 'to': to or rtime(rng, rated),
        'fade_up': o(TIME, tm(1, 0, rat(24, 1)), .15), 'fade_down': o(TIME, tm(1, rng.randrange(2), rat(24, 1)), .15)})
def raw_list(rng, m, mined):
    rated = rng.random() < .85
    pool = [rtime(rng, rated) for _ in range(rng.randint(1, 3))]
    if rated:   # the same instant at different rates
        s = rng.randint(0, 5); pool += [tm(s, 12, rat(24, 1)), tm(s, 500, rat(1000, 1)), tm(s, 25, rat(50, 1)), tm(s, 13, rat(25, 1))]
    ends = [rtime(rng, rated), tm(9, 0, rat(24, 1)) if rated else tm(9, 0)]
    vs = [rvpos(rng) for _ in range(rng.randint(1, 3))]
    out = []
    fades = rng.random() < .2
    for k in range(m):
        r = rraw(rng, rng.choice(pool), rng.choice(ends), mined)
        r = r.with_('text', '%s%d' % (r.text, k))
        if rng.random() < .8: r = r.with_('vertical_position', rng.choice(vs))
        if not fades: r = r.with_('fade_up', none(TIME)).with_('fade_down', none(TIME))
        out.append(r)
    if rng.random() < .04 and out: out[0] = out[0].with_('from', tm(3, 4))
    return out

def big(rng, p=.012):
    """now and then a large number of things (0: not this time)"""
    return rng.choice([10, 20, 40, 70, 130, 260, 300]) if rng.random() < p else 0
