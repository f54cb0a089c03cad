"""C04: collecting raw subtitles."""
from .common import *
from .c01 import rtime, rrate, normal, oracle
from . import gens
from vc.check import Case
CASES = 2500

def time_eq(x, a, b):
    r = oracle(a, b, '==')
    if r[0] == 'throw': x.throw(r[1])
    return r[1]
def x_time_eq(x, a, b): return x.b(x.fn('time_eq', T_BOOL, time_eq, a, b, exc='sub::UnknownFrameRateError'))
def veq(x, a, b):
    if a.proportional.has and a.reference.has and b.proportional.has and b.reference.has:
        return a.proportional.val == b.proportional.val and a.reference.val == b.reference.val
    if a.reference.has and a.line.has and a.lines.has and b.reference.has and b.line.has and b.lines.has:
        return a.line.val == b.line.val and a.lines.val == b.lines.val and a.reference.val == b.reference.val
    if a.reference.has and a.line.has and b.reference.has and b.line.has:
        return a.reference.val == b.reference.val and a.line.val == b.line.val
    return False
def x_veq(x, a, b): return x.b(x.fn('vpos_eq', T_BOOL, veq, a, b))

def x_opt_time_eq(x, a, b):
    ha, hb = x.has(a), x.has(b)
    if ha != hb: return False
    if not ha: return True
    return x_time_eq(x, a.val, b.val)

def same_cue(x, s, r):
    """the piece belongs to the subtitle: same start, end and fades"""
    return x_time_eq(x, s.f['from'], r.f['from']) and x_time_eq(x, s.to, r.to) and x_opt_time_eq(x, s.fade_up, r.fade_up) and x_opt_time_eq(x, s.fade_down, r.fade_down)

BF = ['text', 'font', 'font_size', 'effect', 'effect_colour', 'colour', 'bold', 'italic', 'underline']
def block_of(r): return Rec('sub::Block', {k: r.f[k] for k in BF})
def line_of(r): return Rec('sub::Line', {'horizontal_position': r.horizontal_position, 'vertical_position': r.vertical_position, 'blocks': vec(BLK, [block_of(r)])})
def subtitle_of(r): return Rec('sub::Subtitle', {'from': r.f['from'], 'to': r.to, 'fade_up': r.fade_up, 'fade_down': r.fade_down, 'lines': vec(LINE, [line_of(r)])})

def add_piece(x, cur, r):
    """a piece of an open subtitle goes to its last line if it is on the same row, else starts a line"""
    n = x.vlen(cur.lines)
    if x.is_lt(0, n):
        last = x.vback(cur.lines)
        if x_veq(x, last.vertical_position, r.vertical_position):
            return cur.with_('lines', x.vset(cur.lines, x.sub(n, 1), last.with_('blocks', x.push(last.blocks, block_of(r)))))
    return cur.with_('lines', x.push(cur.lines, line_of(r)))

def spec_collect(x, raw):
    v = x.stable_sort(raw, lambda r: CmpKey(r.f['from']))
    st = State(i=0, cur=none(SUBT), out=Vec(SUBT))
    n = x.vlen(v)
    L = x.loop('pieces', st, inv=lambda s: [le(0, s.i), le(s.i, n)], variant=lambda s: sub(n, s.i))
    while True:
        yield L
        if not x.is_lt(st.i, n): break
        r = x.vget(v, st.i); st.i = x.add(st.i, 1)
        if x.has(st.cur) and same_cue(x, st.cur.val, r):
            st.cur = some(SUBT, add_piece(x, st.cur.val, r))
        else:
            if x.has(st.cur): st.out = x.push(st.out, st.cur.val)
            st.cur = some(SUBT, subtitle_of(r))
    if x.has(st.cur): st.out = x.push(st.out, st.cur.val)
    return st.out

class CmpKey:
    def __init__(self, t): self.t = t
    def __lt__(self, o):
        r = oracle(self.t, o.t, '<')
        if r[0] == 'throw': raise OutOfScope('incomparable times')
        return r[1]

def t_collect(env):
    env.hook('sub::operator==', eqhook(env))
    env.modular('sub::VerticalPosition::operator==', 'vpos_eq', T_BOOL)
    raw = env.fresh(('vec', RAW), 'raw')
    env.spec(spec_collect(env.x, raw))
    out = env.call('sub::collect', None, [raw]); env.compare('collect', out)

def eqhook(env):
    env.modular('sub::operator==', 'time_eq', T_BOOL, exc='sub::UnknownFrameRateError')
    h = env.it.hooks['sub::operator==']
    env.it.hooks['sub::operator==(sub::Time)'] = h
    def g(it, this, args, node):
        v = [it.load(a) if isinstance(a, LV) else a for a in args]
        if isinstance(v[0], Rec) and v[0].t == 'sub::Time': return h(it, this, args, node)
        if isinstance(v[0], Rec):
            for f in it.db.byq.get('sub::operator==', []):
                if v[0].t in f['pt'][0]:
                    return it.call_def(f, None, args)
        raise ToolLimit('operator== on %r' % (v[0],))
    return g

def t_order(env):
    a, b = env.fresh('sub::RawSubtitle', 'a'), env.fresh('sub::RawSubtitle', 'b')
    env.modular('sub::operator<', 'time_lt', T_BOOL, exc='sub::UnknownFrameRateError')
    out = env.call('sub::operator<', None, [a, b], pred=lambda f: 'RawSubtitle' in f['pt'][0])
    env.spec(gen(lambda x: x.fn('time_lt', T_BOOL, None, a.f['from'], b.f['from'], exc='sub::UnknownFrameRateError'))(env.x)); env.compare('raw subtitles are ordered by start time', out)

def tasks():
    return [Task('collect', ['util', 'subtitle', 'vertical_position', 'raw_subtitle', 'sub_time'], t_collect, 200), Task('order', ['raw_subtitle', 'sub_time'], t_order, 60)]

def declarative(raws, got):
    """conservation and grouping, said without reference to the algorithm"""
    subs = got
    pieces = []
    for s in subs:
        if not s[4]: return 'a subtitle without lines'
        for l in s[4]:
            if not l[2]: return 'a line without pieces'
            for b in l[2]: pieces.append(json_key([s[0], s[1], s[2], s[3], l[1], b]))
    want = [json_key([js(r.f['from']), js(r.to), js(r.fade_up), js(r.fade_down), js(r.vertical_position), js(block_of(r))]) for r in raws]
    if sorted(p[-1] for p in pieces) != sorted(p[-1] for p in want): return 'pieces were lost, repeated or changed'
    return None
def json_key(v):
    import json
    return tuple(json.dumps(z) for z in v)

def mkcase(raws):
    v = vec(RAW, raws)
    r = conc(spec_collect, v)
    def j(got):
        if r[0] == 'throw':
            return None if got[0] == 'throw' and got[1] == r[1] else 'expected %s, got %s' % (r[1], str(got[:2])[:200])
        if got[0] != 'ret': return 'unexpected %s' % (str(got[:2])[:200],)
        e = js(r[1])
        for k, o in (('vector', got[1][0]), ('list', got[1][1])):
            if not same(e, o):
                from vc.check import diffshow
                return 'collect into a %s: expected %s, got %s' % ((k,) + diffshow(e, o))
        return None
    return Case('collect ' + toks(v), j, 'collect %d pieces' % len(raws))

def cases(rng, n, mined):
    while True:
        m = rng.choice([0, 1, 2, 3, 4, 6, rng.randint(5, 12), rng.randint(17, 40)])
        yield mkcase(gens.raw_list(rng, m, mined))
