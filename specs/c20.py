"""C20: no input makes the library read or write outside its data.

The obligations are those every contract proof generates at each container access, dereference, division, conversion,
buffer write and loop of the readers, conversions and the writer; what the functions compute is judged by the other properties."""
from .common import *
from . import gens, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c16, c18, c19, c21, c22
from vc.check import Case
CASES = 5000
SAFETY_ONLY = True
FROM = [('C05', c05, None), ('C06', c06, None), ('C07', c07, None), ('C08', c08, None), ('C09', c09, None), ('C10', c10, None), ('C11', c11, None), ('C14', c14, ['read from a stream', 'metadata']), ('C16', c16, None),
        ('C12', c12, None), ('C13', c13, None), ('C04', c04, None), ('C18', c18, None), ('C19', c19, None), ('C21', c21, None), ('C22', c22, None)]
def tasks():
    out = []
    for p, m, names in FROM:
        for t in m.tasks():
            if names is None or t.name in names: out.append(Task('%s %s' % (p, t.name), t.tus, t.run, min(t.deadline, 300), t.functions, t.timeout))
    return out

# ---------------------------------------------------------------- replay
class Survives:
    """any outcome but a crash or a hang; arithmetic on absurd numbers is not this property's subject"""
    def __call__(self, g):
        if g[0] == 'throw' and not g[1].startswith(('sub::', 'std::', 'boost::')): return 'an exception of type %s' % g[1]
    def crash(self, why):
        return None if 'signed integer overflow' in why or 'outside the range of representable values' in why else 'the code crashed: ' + why
OK = Survives()
TOK = ['\\', '{', '}', '<', '>', '<i>', '</i>', '<font', 'color', '=', '"', '#', '"#', '{\\', '{i}', '{c:$', ':', ',', '.', '-->', ' --> ', '\n', '\n\n', '\r\n', '\r', '0', '1', '-1', '00:00:01,000 --> 00:00:02,000', '00:00:01.000 --> 00:00:02.000', 'WEBVTT', 'NOTE',
       '\xef\xbb\xbf', '\xe2\x80\xab', '\xe2\x80', '\xe2', '\xc3', '\xff', '\x8a', '\x8f', '\xc1', '\xcf', '\\pos(', ')', '\\pos(1', '\\fs', '\\c&H', '\\c', '&', '\\an', '\\1c&HFF', '\\N', '[Script Info]', '[V4+ Styles]', '[Events]', 'Format:', 'Style:', 'Dialogue:', 'PlayResX:', 'PlayResY:', 'Text', 'Start', 'End', 'Name',
       '$FontSize', '$', '^', '^B', '|', '//', 'Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text', 'Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,', ' ', '\t', '99999999999', '2147483648', '1e99', 'nan', '\x01', '\x80', '\0']
def soup(rng, mined):
    return ''.join(rng.choice(mined['strs']) if mined['strs'] and rng.random() < .2 else rng.choice(TOK) if rng.random() < .85 else chr(rng.randrange(256)) for _ in range(rng.choice([0, 1, 2, 3, 5, 10, 40])))
def mutate(rng, t, mined):
    for _ in range(rng.choice([1, 1, 2, 3, 6, 20])):
        n = len(t); i = rng.randrange(n + 1); k = rng.randrange(9)
        if k == 0: t = t[:i]
        elif k == 1: t = t[:i] + t[i + 1:]
        elif k == 2: t = t[:i] + t[i + rng.randrange(20):]
        elif k == 3: t = t[:i] + chr(rng.randrange(256)) + t[i:]
        elif k == 4: t = t[:i] + chr(rng.randrange(256)) + t[i + 1:]
        elif k == 5: t = t[:i] + rng.choice(TOK) + t[i:]
        elif k == 6: t = t[i:]
        elif k == 7: j = rng.randrange(n + 1); t = t[:i] + t[j:j + rng.randrange(40)] + t[i:]
        elif mined['strs']: t = t[:i] + rng.choice(mined['strs']) + t[i:]
    return t
def long_line(rng): return rng.choice(['a', ' ', '<', '{', '\\', '<i>', 'x,', '|', '^B', ':', '\xe2\x80\xab', '0', '\xc1', '\\N', '{\\b1}']) * rng.choice([254, 255, 256, 300, 512, 1000, 4000])
def text(rng, mined, make):
    k = rng.random()
    if k < .2: return soup(rng, mined)
    t = make()
    if k < .3: return t
    if k < .36: i = rng.randrange(len(t) + 1); return t[:i] + long_line(rng) + t[i:]
    return mutate(rng, t, mined)
def cases(rng, n, mined):
    nl = lambda: rng.choice(['\n', '\n', '\n', '\r\n', '\r'])
    while True:
        k = rng.randrange(16)
        if k == 0: yield Case('srt %s %s' % (rng.choice('sf'), hexs(text(rng, mined, lambda: nl().join(c07.rfile(rng, mined)) + '\n'))), OK, 'damaged SubRip')
        elif k == 1: yield Case('vtt %s %s' % (rng.choice('sf'), hexs(text(rng, mined, lambda: nl().join(c08.rfile(rng, mined)) + '\n'))), OK, 'damaged WebVTT')
        elif k in (2, 3):
            def ssa():
                t = c10.rfile(rng, mined); return t if isinstance(t, str) else nl().join(t) + '\n'
            yield Case('ssa %s %s' % (rng.choice('sf'), hexs(text(rng, mined, ssa))), OK, 'damaged SSA')
        elif k == 4: yield Case('stltext ' + hexs(text(rng, mined, lambda: nl().join(c11.rfile(rng, mined)) + '\n')), OK, 'damaged Spruce STL')
        elif k in (5, 6): yield Case('stlbin %s %s' % (rng.choice('sf'), hexs(c14.rfile(rng) if rng.random() < .3 else mutate(rng, c14.rfile(rng), mined))), OK, 'damaged EBU STL')
        elif k == 7: yield Case('ssaline %s %s %s' % (toks(c09.rbase(rng, mined)), hexs(text(rng, mined, lambda: c09.rline(rng, mined)).replace('\0', '')), toks(c09.rctx(rng))), OK, 'damaged dialogue')
        elif k == 8: yield Case('ssatag %s %s %s' % (toks(c09.rbase(rng, mined)), hexs(text(rng, mined, lambda: c09.rtag(rng, mined)).replace('\0', '')), toks(c09.rctx(rng))), OK, 'damaged tag')
        elif k == 9: yield Case('isodec ' + hexs(c16.rbytes(rng, rng.randrange(40)) if rng.random() < .5 else ''.join(chr(rng.randrange(256)) for _ in range(rng.randrange(30)))), OK, 'ISO 6937 bytes')
        elif k == 10: w = [rng.choice([rng.randrange(1, 0x180), rng.randrange(1, 0x3000), rng.randrange(1, 0x110000), 0x7fffffff]) for _ in range(rng.randrange(20))]; yield Case('isoenc %d %s' % (len(w), ' '.join(map(str, w))), OK, 'characters')
        elif k == 11: yield Case('%s %s' % (rng.choice(['rgb', 'rgba', 'effect', 'vref', 'ews', 'bom', 'lines', 'rawconv', 'fromdfc']), hexs(text(rng, mined, lambda: rng.choice(['ff00ff', '#ff00ff', '12345678', 'STL25.01', 'top', '12', '1.5'])))), OK, 'damaged values')
        elif k == 12: yield Case('srttime %s %s' % (hexs(text(rng, mined, lambda: c05.stamp(rng, mined))), hexs(rng.choice([',', '.', '', ',.']))), OK, 'damaged time')
        elif k == 13:
            t, rev, l = c13.rmeta(rng, rng.random() < .5); subs = c13.rsubs(rng)
            if rng.random() < .3 and subs.segs: subs = vec(SUBT, [e.v for e in subs.segs] * rng.choice([2, 10, 100]))
            yield Case(c13.op(subs, rng.choice(c13.RATES), rng.randrange(100), t, rev, l), OK, 'written')
        elif k == 14:
            j = rng.choice(['srt', 'vtt', 'ssa', 'stltext', 'stlbin']); g = {'srt': lambda: '\n'.join(c07.rfile(rng, mined)), 'vtt': lambda: '\n'.join(c08.rfile(rng, mined)), 'ssa': lambda: (lambda t: t if isinstance(t, str) else '\n'.join(t))(c10.rfile(rng, mined)), 'stltext': lambda: '\n'.join(c11.rfile(rng, mined)), 'stlbin': lambda: c14.rfile(rng)}[j]
            yield Case('dump %s %s' % (j, hexs(text(rng, mined, g))), OK, 'dump of a damaged file')
        else:
            nm = c22.rname(rng)
            if '/' in nm or nm.startswith('.') or nm == '': continue
            yield Case('factory %s %s' % (hexs(nm), hexs(text(rng, mined, lambda: c22.rcontent(rng, mined)))), OK, 'a damaged file')
