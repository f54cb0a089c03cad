"""C22: which reader is chosen for a file, and what it is given to read."""
from .common import *
from vc.check import Case
from vc.lib import path_extension
from . import c07, c11, c14
CASES = 2500
BINARY, TEXT, SUBRIP = 'sub::STLBinaryReader', 'sub::STLTextReader', 'sub::SubripReader'

# ---------------------------------------------------------------- contract
def choose(x, name, content):
    """the reader for a file, or '' for none"""
    ext = x.lower(x.fn('path_extension', T_STR, path_extension, name))
    if x.b(x.eq(ext, '.stl')):
        if x.is_le(11, x.slen(content)) and x.b(x.eq(x.substr(content, 3, 3), 'STL')): return BINARY
        return TEXT
    if x.b(x.eq(ext, '.srt')): return SUBRIP
    return ''

# ---------------------------------------------------------------- proof
def t_factory(env):
    x = env.x; it = env.it
    name = env.fresh(T_STR, 'name'); content = x.fn('file_content', T_STR, None, name)
    made = []
    def ctor(cls):
        def h(it_, this, args, node):
            a = it.load(args[0]) if isinstance(args[0], LV) and not isinstance(it.load_nocheck(args[0]), Rec) else args[0]
            v = it.load_nocheck(a.lv) if hasattr(a, 'lv') else it.load_nocheck(a)
            made.append(cls); what = 'the reader made'
            ok = isinstance(v, Rec) and v.t in ('file', 'bytesin')
            env.c.oblige(what + ' is given the opened file', ok)
            if ok:
                env.c.oblige(what + ' reads that file', x.eq(v.f['text'], content))
                env.c.oblige(what + ' starts at the first byte', it.S.eq(v.f['pos'], 0))
                env.c.oblige(what + ' can read (the stream has not failed)', v.f.get('fail', False) is False)
            return Rec(cls, {'#made': 1})
        return h
    for c in (BINARY, TEXT, SUBRIP): env.hook(c + '::' + c.split('::')[1], ctor(c))
    env.spec(gen(choose)(x, name, content))
    out = env.call('sub::reader_factory', None, [Rec('path', {'s': name})])
    so = env.prod.finish()
    env.c.oblige('reader_factory returns', out[0] == 'ret')
    if out[0] == 'ret':
        p = out[1]
        if so[1] == '': env.c.oblige('no reader for another extension', isinstance(p, NullP) and not made)
        else:
            got = it.load_nocheck(p.lv) if isinstance(p, Ptr) else None
            env.c.oblige('the reader is a ' + so[1], isinstance(got, Rec) and got.t == so[1] and made == [so[1]])
def tasks(): return [Task('reader_factory', ['reader_factory', 'stl_binary_reader', 'stl_text_reader', 'subrip_reader'], t_factory, 120)]

# ---------------------------------------------------------------- replay
EXT = ['.stl', '.STL', '.Stl', '.sTl', '.srt', '.SRT', '.Srt', '.ssa', '.ass', '.vtt', '.txt', '.xml', '', '.', '.srt.bak', '.stl.srt', '.srt.stl', '.stl~', '.st', '.stll', ' .srt', '.srt ', '.mp4.STL', '.s\xc3\xb6t', '.SRT.']
def rname(rng):
    return ''.join(rng.choice(['a', 'B', 'film', ' ', '1', '-', '_', '.v2', '\xc3\xa9', 'stl', 'srt']) for _ in range(rng.randint(1, 3))).lstrip('.') .rstrip('.') + rng.choice(EXT[:7] if rng.random() < .7 else EXT)
def rcontent(rng, mined):
    k = rng.randrange(10)
    if k < 3: return c14.rfile(rng)
    if k < 6: return rng.choice(['\n', '\r\n']).join(c11.rfile(rng, mined)) + rng.choice(['\n', '\n', ''])
    if k < 8: return c07.messy(rng, c07.rfile(rng, mined))
    t = rng.choice(['850STL25.01', '850STL25.0', '$FontSize=', '$FontSize=x', '850stl25.01', '', 'STL', 'aaSTL', 'aaaSTLbbbbb', 'aaaaSTLbbbb', '850STK25.01', '//x', '$Bold=True', '85\n0STL25.01', 'abcSTLxyz\n00:00:01:00,00:00:02:00,x\n'])
    return t + rng.choice(['', '', '\n', 'x', '\n00:00:01:00,00:00:02:00,Hello\n'])
def expect(name, content):
    try: kind = conc(choose, name, content)[1]
    except OutOfScope: raise
    if kind == '': return ('ret', [None, None])
    if kind == BINARY:
        e = c14.expect(content); return e if e[0] == 'throw' else ('ret', [kind, e[1][0]])
    if '\0' in content: raise OutOfScope('NUL')
    e = conc(c11.spec_read, lines_of(content, 's')) if kind == TEXT else conc(c07.spec_read, lines_of(content, 'f'))
    return e if e[0] == 'throw' else ('ret', [kind, js(e[1])])
def cases(rng, n, mined):
    while True:
        nm = rname(rng)
        if nm in ('', '.', '..') or nm.startswith('.') or path_extension(None, nm) == nm: continue
        if rng.random() < .05: nm = 'long name ' * rng.choice([3, 9, 17]) + nm
        if rng.random() < .1: nm = rng.choice(['dir.stl', 'dir.srt', 'd', 'x.STL']) + '-' + nm
        t = rcontent(rng, mined); e = expect(nm, t)
        def judge(g, e=e):
            if e[0] == 'throw': return None if g[0] == 'throw' and g[1] == e[1] else 'expected %s, got %s' % (e[1], str(g[:2])[:200])
            if g[0] == 'throw': return 'unexpected exception %s: %s' % (g[1], str(g[2].get('what', ''))[:200])
            if g[0] != 'ret': return str(g)[:300]
            if g[1][0] != e[1][0]: return 'expected reader %s, got %s' % (e[1][0], g[1][0])
            if not same(e[1][1], g[1][1]): return 'expected subtitles %s, got %s' % (str(e[1][1])[:300], str(g[1][1])[:300])
        yield Case('factory %s %s' % (hexs(nm), hexs(t)), judge, 'file %r containing %r' % (nm, t[:200]))
