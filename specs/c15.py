"""C15: EBU STL code tables (EBU Tech 3264, section 4.2 and 4.3)."""
from .common import *
from vc.check import Case
CASES = 2500
# code -> (position of the value, what it means), written down from the standard
def en(*rows): return [(c, i, d) for i, (c, d) in enumerate(rows)]
DSC = en((' ', 'Undefined'), ('0', 'Open subtitling'), ('1', 'Level 1 teletext'), ('2', 'Level 2 teletext'))
CCT = en(('00', 'Latin'), ('01', 'Latin/Cyrillic'), ('02', 'Latin/Arabic'), ('03', 'Latin/Greek'), ('04', 'Latin/Hebrew'), ('U8', 'UTF-8'))
TCS = en(('0', 'Not intended for use'), ('1', 'Intended for use'))
CS = en((0, 'Not part of a cumulative set'), (1, 'First subtitle of a cumulative set'), (2, 'Intermediate subtitle of a cumulative set'), (3, 'Last subtitle of a cumulative set'))
JC = en((0, 'No justification'), (1, 'Left justification'), (2, 'Centre justification'), (3, 'Right justification'))
CF = en((0, 'Not a comment'), (1, 'Is a comment'))
_EUR = '''Unknown Albanian Breton Catalan Croatian Welsh Czech Danish German English Spanish Esperanto Estonian Basque Faroese French
Frisian Irish Gaelic Galacian Icelandic Italian Lappish Latin Latvian Luxemborgian Lithuanian Hungarian Maltese Dutch Norwegian Occitan
Polish Portugese Romanian Romansh Serbian Slovak Slovenian Finnish Swedish Turkish Flemish Wallon'''.split()
_OTH = '''Amharic Arabic Armenian Assamese Azerbaijani Bambora Bielorussian Bengali Bulgarian Burmese Chinese Churash Dari Fulani Georgian Greek
Gujarati Gurani Hausa Hebrew Hindi Indonesian Japanese Kannada Kazakh Khmer Korean Laotian Macedonian Malagasay Malaysian Moldavian
Marathi Ndebele Nepali Oriya Papamiento Persian Punjabi Pushtu Quechua Russian Ruthenian Serbo_Croat Shona Sinhalese Somali Sranan_Tongo
Swahili Tadzhik Tamil Tatar Telugu Thai Ukranian Urdu Uzbek Vietnamese Zulu'''.split()
LC = en(*([('%02X' % i, d) for i, d in enumerate(_EUR)] + [('%02X' % (0x7f - i), d.replace('_', ' ')) for i, d in enumerate(_OTH)]))
# table, driver names (code -> value, value -> code, value -> description), C++ names, what an unknown code is
TABLES = {
    'display standard': (DSC, 'ds2e', None, 'dds', 'display_standard', 'display standard code'),
    'character code table': (CCT, 'lg2e', None, 'dlg', 'language_group', 'language group code'),
    'language': (LC, 'l2e', 'e2l', 'dl', 'language', 'language code'),
    'time code status': (TCS, 'ts2e', None, 'dts', 'timecode_status', 'timecode status code'),
    'cumulative status': (CS, 'cs2e', 'e2cs', 'dcs', 'cumulative_status', 'cumulative status code'),
    'justification': (JC, 'j2e', 'e2j', 'dj', 'justification', 'justification code'),
    'comment flag': (CF, 'c2e', 'e2c', 'dc', 'comment', 'comment code'),
}
DFC = [('STL23.01', Fraction(23976, 1000)), ('STL24.01', Fraction(24)), ('STL25.01', Fraction(25)), ('STL30.01', Fraction(30))]

# ---------------------------------------------------------------- contracts
def decode(x, tab, k):
    for c, v, d in tab:
        if x.is_(k, c): return v
    raise SpecThrow('sub::STLError', None)
def encode(x, tab, v):
    for c, w, d in tab:
        if x.is_(v, w): return c
    raise SpecThrow('sub::ProgrammingError', None)
def describe(x, tab, v):
    for c, w, d in tab:
        if x.is_(v, w): return d
    return ''
def undescribe(x, tab, d0):
    for c, w, d in tab:
        if x.is_(d0, d): return some(T_INT, w)
    return none(T_INT)
def rate_of(x, s):
    for c, r in DFC:
        if x.is_(s, c): return r
    raise SpecThrow('sub::STLError', None)

# ---------------------------------------------------------------- proofs
CLS = 'sub::STLBinaryTables'
def tables(env):
    out = env.construct(CLS + '::STLBinaryTables', CLS, [], pred=lambda d: len(d['params']) == 0)
    env.c.oblige('tables can be made', out[0] == 'ret')
    return out[1]
def key(env, tab, name):
    return env.fresh(T_STR if isinstance(tab[0][0], str) else 'int', name)
def t_table(tab, fn, contract, arg):
    def run(env):
        t = tables(env); a = key(env, tab, 'code') if arg == 'code' else env.fresh('int', 'value') if arg == 'value' else env.fresh(T_STR, 'description')
        env.spec(gen(contract)(env.x, tab, a))
        env.compare(fn, env.call(CLS + '::' + fn, env.var('tables', ('rec', CLS), t), [a]))
    return run
def t_dfc_back(env):
    """every code gives a rate that gives the code"""
    for c, r in DFC:
        a = env.call('sub::stl_dfc_to_frame_rate', None, [c]); env.c.oblige('%s has a rate' % c, a[0] == 'ret')
        b = env.call('sub::stl_frame_rate_to_dfc', None, [a[1]]); env.c.oblige('%s: its rate has a code' % c, b[0] == 'ret'); env.eq('%s: same code back' % c, b[1], c)
        env.c.oblige('%s: rate' % c, conj(z3.RealVal(r) - z3.RealVal('0.00001') <= a[1], a[1] <= z3.RealVal(r) + z3.RealVal('0.00001')))
def t_dfc_any(env):
    s = env.fresh(T_STR, 's')
    known = False
    for c, r in DFC:
        if env.x.is_(s, c): known = True
    out = env.call('sub::stl_dfc_to_frame_rate', None, [s])
    env.c.oblige('unknown disk format codes are errors', known if out[0] == 'ret' else (not known and out[1] == 'sub::STLError'))
def t_rate_any(env):
    r = env.fresh('float', 'rate'); x = env.x
    out = env.call('sub::stl_frame_rate_to_dfc', None, [r])
    env.c.oblige('every rate has a code', out[0] == 'ret')
    env.c.oblige('the code is one that can be read', disj(*[x.eq(out[1], c) for c, _ in DFC]))
    for c, q in DFC:
        if c != 'STL25.01': env.c.oblige('only rates near %s get %s' % (float(q), c), disj(neg(x.eq(out[1], c)), z3.And(r > z3.RealVal(q) - z3.RealVal('0.01'), r < z3.RealVal(q) + z3.RealVal('0.01'))))
def tasks():
    o = []
    for n, (tab, f, b, d, cn, err) in TABLES.items():
        o.append(Task('%s: decode' % n, ['stl_binary_tables'], t_table(tab, cn + '_file_to_enum', decode, 'code'), 120))
        if b: o.append(Task('%s: encode' % n, ['stl_binary_tables'], t_table(tab, cn + '_enum_to_file', encode, 'value'), 120))
        o.append(Task('%s: describe' % n, ['stl_binary_tables'], t_table(tab, cn + '_enum_to_description', describe, 'value'), 120))
    o.append(Task('language: from description', ['stl_binary_tables'], t_table(LC, 'language_description_to_enum', undescribe, 'description'), 120))
    o += [Task('frame rate codes', ['stl_util'], t_dfc_back, 60), Task('unknown frame rate codes', ['stl_util'], t_dfc_any, 60), Task('any frame rate', ['stl_util'], t_rate_any, 60)]
    return o

# ---------------------------------------------------------------- replay
def cases(rng, n, mined):
    ic = lambda f, *a: conc(f, *a)
    def line(op, a): return 'tab %s %s' % (op, a if isinstance(a, int) else hexs(a))
    for nme, (tab, f, b, d, cn, err) in TABLES.items():
        for c, v, desc in tab:
            yield Case(line(f, c), ic(decode, tab, c), '%s code %r' % (nme, c))
            if b: yield Case(line(b, v), ic(encode, tab, v), '%s value %d' % (nme, v))
            yield Case(line(d, v), ic(describe, tab, v), '%s value %d description' % (nme, v))
            if nme == 'language': yield Case(line('d2l', desc), ic(undescribe, tab, desc), 'language named %r' % desc)
    def near(c, r):
        def j(g):
            if g[0] != 'ret' or abs(g[1] - float(r)) > 1e-5: return 'rate of %s is %s' % (c, g[1])
        return j
    for c, r in DFC:
        yield Case('fromdfc ' + hexs(c), near(c, r), 'rate of ' + c); yield Case('todfc %r' % float(r), ('ret', c), 'code of rate %s' % float(r))
    def code(r):
        def j(g):
            if g[0] != 'ret' or g[1] not in [c for c, _ in DFC]: return 'rate %s gives %r, which no reader knows' % (r, g)
            for c, q in DFC:
                if c != 'STL25.01' and g[1] == c and abs(r - float(q)) > 0.01: return 'rate %s gives the code %s' % (r, c)
        return j
    for r in (29.97, 50, 60, 48, 12, 24.5, 23.9, 30.02, 25.5, 1): yield Case('todfc %r' % float(r), code(float(r)), 'code of rate %s' % r)
    while True:
        if rng.random() < .1: r = round(rng.choice([rng.uniform(1, 120), rng.uniform(22.5, 31)]), 3); yield Case('todfc %r' % r, code(r), 'code of rate %s' % r); continue
        nme = rng.choice(list(TABLES)); tab, f, b, d, cn, err = TABLES[nme]
        k = rng.randrange(4)
        if k == 3:
            s = rng.choice([c for c, _ in DFC] + ['STL%d.01' % rng.randrange(20, 100), 'STL25.02', 'stl25.01', '', 'STL25.01 ', 'STL50.01', 'STL60.01', 'STL29.01', 'STL29.97', 'STL25'])
            e = conc(rate_of, s); yield Case('fromdfc ' + hexs(s), e if e[0] == 'throw' else near(s, e[1]), 'rate of %r' % s); continue
        if isinstance(tab[0][0], str):
            c = rng.choice([rng.choice(tab)[0], '%02X' % rng.randrange(256), '%02x' % rng.randrange(256), chr(rng.randrange(1, 256)), '%d' % rng.randrange(20), '', ' ', '  ', rng.choice(tab)[0] + ' ', 'u8', 'U 8'])
        else: c = rng.choice([rng.randrange(-3, 10), rng.randrange(-300, 300), 255, 128])
        if k == 0 or nme != 'language': yield Case(line(f, c), ic(decode, tab, c), '%s code %r' % (nme, c))
        else:
            s = rng.choice([rng.choice(tab)[2], rng.choice(tab)[2].lower(), rng.choice(tab)[2][:-1], '', 'Klingon']); yield Case(line('d2l', s), ic(undescribe, tab, s), 'language named %r' % s)
