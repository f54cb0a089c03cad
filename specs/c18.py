"""C18: files and strings are read alike; byte order marks, line ends and blank lines."""
from .common import *
from . import gens, c06, c07, c08, c10
from vc.check import Case
from vc.prod import Root, Ptr
CASES = 5000

# ---------------------------------------------------------------- contracts
def blank(x, t):
    """only spaces, newlines and tabs"""
    n = x.slen(t); s = State(i=0)
    L = x.loop('characters', s, inv=lambda s: [le(0, s.i), le(s.i, n)], variant=lambda s: sub(n, s.i))
    while True:
        yield L
        if not x.is_lt(s.i, n): return True
        c = x.code(t, s.i)
        if not any(x.is_(c, ord(k)) for k in ' \n\t'): return False
        s.i = x.add(s.i, 1)
def next_line(x, t):
    """-> (the first line without its newline, the rest)"""
    if x.is_(t, ''): return none(T_STR), t
    p = x.find(t, '\n')
    if not x.b(x.le(0, p)): return some(T_STR, t), ''
    return some(T_STR, x.substr(t, 0, p)), x.substr(t, x.add(p, 1))
def next_file_line(x, t, p0):
    """-> (the line that starts at p0 with its newline, where the next one starts)"""
    n = x.slen(t)
    if not x.is_lt(p0, n): return none(T_STR), p0
    p = x.find(t, '\n', p0)
    if not x.b(x.le(0, p)): return some(T_STR, x.substr(t, p0)), n
    return some(T_STR, x.substr(t, p0, x.sub(x.add(p, 1), p0))), x.add(p, 1)

# ---------------------------------------------------------------- proofs
def t_blank(env):
    s = env.fresh(('str',), 's'); env.spec(blank(env.x, s)); env.compare('empty_or_white_space', env.call('sub::empty_or_white_space', None, [s]))
def t_string(env):
    v = env.var('s', T_STR); t = env.it.load(v)
    env.spec(gen(next_line)(env.x, t)); out = env.call('sub::get_line_string', None, [Ptr(lv=v)])
    env.compare('get_line_string', out, [('line', lambda: out[1], lambda: env.prod.spec_out[1][0]), ('rest', lambda: env.it.load(v), lambda: env.prod.spec_out[1][1])], result=False)
def t_file(env):
    """fgets delivers the line in pieces of any size"""
    x = env.x; t = env.fresh(('str',), 'text'); p0 = z3.Int('p0'); x.assume(conj(le(0, p0), le(p0, x.slen(t)), x.slen(t) < (1 << 60)))
    f = env.file(t, p0); at = lambda: env.it.load_nocheck(f.lv).f['pos']
    nl = x.find(t, '\n', p0)
    def spec():
        s = State(line='', pos=p0)
        L = x.loop('pieces', s, inv=lambda s: [le(p0, s.pos), le(s.pos, x.slen(t)), x.eq(s.line, x.substr(t, p0, x.sub(s.pos, p0))), disj(lt(nl, 0), le(s.pos, nl))])
        while True:
            yield L
            q = at()                              # how far the file has been read
            env.lemma('the next newline stays the same until it is reached', lambda t, a, b, f: z3.Implies(z3.And(0 <= a, a <= b, b <= z3.Length(t), f == z3.IndexOf(t, '\n', a), z3.Or(f < 0, f >= b)), z3.IndexOf(t, '\n', b) == f), t, p0, s.pos, nl)
            env.lemma('adjacent pieces join', lambda t, a, b, n: z3.Implies(z3.And(0 <= a, a <= b, 0 <= n, b + n <= z3.Length(t)), z3.Concat(z3.SubString(t, a, b - a), z3.SubString(t, b, n)) == z3.SubString(t, a, b - a + n)), t, p0, s.pos, x.sub(q, s.pos))
            if not x.b(conj(lt(s.pos, q), disj(lt(nl, 0), le(q, nl)))): break
            s.line = x.cat(s.line, x.substr(t, s.pos, x.sub(q, s.pos))); s.pos = q
        return next_file_line(x, t, p0)
    env.spec(spec()); out = env.call('sub::get_line_file', None, [f])
    env.compare('get_line_file', out, [('line', lambda: out[1], lambda: env.prod.spec_out[1][0]), ('where the next line starts', at, lambda: env.prod.spec_out[1][1])], result=False)
def t_bom(env):
    v = env.var('line', ('opt', T_STR)); o = env.it.load(v); env.x.assume(o.has)
    env.spec(gen(strip_bom)(env.x, o.val)); out = env.call('sub::remove_unicode_bom', None, [v])
    env.compare('remove_unicode_bom', out, [('line', lambda: env.it.load(v), lambda: some(T_STR, env.prod.spec_out[1]))], result=False)
def t_ctor(cls, mode):
    def run(env):
        """the constructor reads with the line source of its argument"""
        x = env.x; it = env.it; t = env.fresh(('str',), 'text'); used = []
        def src(kind):
            def h(it, this, args, node):
                p = it.load(args[0]) if isinstance(args[0], LV) else args[0]
                v = it.load_nocheck(p.lv)
                used.append((kind, v.f['text'] if isinstance(v, Rec) else v)); return env.fresh(('opt', T_STR), 'line%d' % len(used))
            return h
        env.hook('sub::get_line_string', src('string')); env.hook('sub::get_line_file', src('file'))
        def read(it, this, args, node):
            g = args[0]; env.call_value(g); env.call_value(g); reads.append(1)
        reads = []; env.hook(cls + '::read', read)
        arg = t if mode == 'string' else env.file(t)
        want = 'std::string' if mode == 'string' else 'FILE'
        out = env.construct(cls + '::' + cls.split('::')[-1], cls, [arg], pred=lambda d: len(d['params']) == 1 and (('FILE' in d['pt'][0]) == (mode == 'file')))
        env.c.oblige('constructor returns', out[0] == 'ret'); env.c.oblige('reads once', len(reads) == 1)
        env.c.oblige('reads lines of its argument', len(used) == 2 and all(u[0] == mode for u in used))
        for u in used: env.c.oblige('reads the text it was given', x.eq(u[1], t))
    return run
READERS = (('sub::SubripReader', 'subrip_reader'), ('sub::WebVTTReader', 'web_vtt_reader'), ('sub::SSAReader', 'ssa_reader'))
def tasks():
    return [Task('blank', ['util'], t_blank, 60), Task('get_line_string', ['util'], t_string, 60), Task('get_line_file', ['util'], t_file, 120), Task('byte order mark', ['util'], t_bom, 60)] + \
        [Task('%s(%s)' % (c.split('::')[1], m), [u], t_ctor(c, m), 60) for c, u in READERS for m in ('string', 'file')]

# ---------------------------------------------------------------- replay
def rtext(rng):
    p = rng.choice([1, 3, 10, 40])
    return ''.join(rng.choice(['\n', '\n', '\r\n', 'a', 'hello', ' ', '\t', '\xef\xbb\xbf', '\xc3\xa9', 'x' * rng.choice([1, 5, 253, 254, 255, 256, 257, 510, 511, 600] + [1000, 1023, 1024, 4095, 4096, 5000, 9000, 33000, 66000] * (rng.random() < .02))]) for _ in range(rng.randrange(p + 1)))
def cut(t):
    o = []
    while t:
        k = t.find('\n')
        if k < 0: o.append(t); break
        o.append(t[:k + 1]); t = t[k + 1:]
    return o
def cases(rng, n, mined):
    files = [m.cases(rng, n, mined) for m in (c07, c08, c10)]
    while True:
        k = rng.randrange(8)
        if k == 0:
            s = ''.join(rng.choice([' ', '\n', '\t', ' ', 'a', '\r', '\v', '\f', '\xa0', '.'] if rng.random() < .3 else [' ', '\n', '\t']) for _ in range(rng.randrange(6))); yield Case('ews ' + hexs(s), conc(blank, s), 'blank: %r' % s)
        elif k == 1:
            s = rng.choice([BOM, BOM, BOM[:2], BOM[1:], '\xef\xbb', '\xfe\xff', '', BOM + BOM]) + rng.choice(['', 'a', '1\n', 'WEBVTT', BOM]); yield Case('bom ' + hexs(s), conc(strip_bom, s), 'byte order mark of %r' % s)
        elif k in (2, 3):
            t = rtext(rng); c = cut(t); yield Case('lines ' + hexs(t), ('ret', [[js(l[:-1] if l.endswith('\n') else l) for l in c], [js(l) for l in c]]), 'lines of %r' % t[:200])
        else:
            try: c = next(files[rng.randrange(3)])
            except (OutOfScope, StopIteration): files = [m.cases(rng, n, mined) for m in (c07, c08, c10)]; continue
            p = c.line.split(' ')
            if len(p) != 3 or p[0] not in ('srt', 'vtt', 'ssa') or p[2] == '.': continue
            yield many(p[0], longer(rng, bytes.fromhex(p[2]).decode('latin-1')))
def longer(rng, t):
    ls = t.split('\n')
    if rng.random() < .5:
        for _ in range(2):
            i = rng.randrange(len(ls))
            if len(ls[i]) > 5 and '-->' not in ls[i] and ':' not in ls[i][:12] or 'Dialogue' in ls[i]: ls[i] += rng.choice(['word ' * rng.choice([40, 52, 60, 120]), 'x' * (rng.choice([254, 255, 256, 510, 300]) - len(ls[i]) % 250)])
    return '\n'.join(ls)
def many(op, t):
    """the same text from a string and from a file, with other line ends, a byte order mark, no last newline"""
    if '\0' in t: raise OutOfScope('NUL')
    v = [('s', t), ('f', t)]
    if '\r' not in t: v += [('s', t.replace('\n', '\r\n')), ('f', t.replace('\n', '\r\n'))]
    if not t.startswith(BOM): v += [('s', BOM + t), ('f', BOM + t)]
    if t.endswith('\n') and not t.endswith('\n\n') and len(t) > 1: v += [('s', t[:-1]), ('f', t[:-1])]
    names = ['%s %s' % ('string' if m == 's' else 'file', 'as is' if u is t else 'with CR LF' if '\r' in u and '\r' not in t else 'with byte order mark' if u.startswith(BOM) and not t.startswith(BOM) else 'without the last newline') for m, u in v]
    def judge(g):
        if g[0] != 'ret': return 'threw %s' % (g,)
        for nme, r in zip(names, g[1]):
            if not same(r, g[1][0]): return 'read from a %s gives %s but from a %s gives %s' % ((names[0], str(g[1][0])[:300], nme, str(r)[:300]))
    return Case('readmany %s %d %s' % (op, len(v), ' '.join('%s %s' % (m, hexs(u)) for m, u in v)), judge, '%s text %r' % (op, t[:300]))
