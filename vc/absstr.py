"""A cheap over-approximation of formulas over strings.

String terms become terms of an uninterpreted sort with a handful of true facts about
length, characters and concatenation.  If the abstract query is unsatisfiable so is the
original one; an abstract model proves nothing (callers then ask the string solver)."""
import z3
A = z3.DeclareSort('Text')
_len = z3.Function('text.len', A, z3.IntSort())
_id = z3.Function('text.id', A, z3.IntSort())
_code = z3.Function('text.code', A, z3.IntSort())
_lits = {}; _fun = {}
_memo = {}; _keep = []
K = z3
I0 = z3.IntVal(0)

def lit(s):
    v = _lits.get(s)
    if v is None:
        n = len(_lits); c = z3.Const('text.lit%d' % n, A)
        ax = [_id(c) == n, _len(c) == len(s)]
        if len(s) == 1: ax.append(_code(c) == ord(s))
        v = _lits[s] = (c, frozenset([(c.get_id(), tuple(ax))]))
        _keep.append(c)
    return v

def text(t):
    """python value of a string literal"""
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), t.as_string())

def fn(name, dom, rng):
    k = (name, tuple(s.name() for s in dom), rng.name())
    f = _fun.get(k)
    if f is None: f = _fun[k] = z3.Function('text:' + name, *(list(dom) + [rng]))
    return f

def term_axioms(t):
    e = lit('')[0]
    return (t.get_id(), (_len(t) >= 0, _len(t) < (1 << 60), (_len(t) == 0) == (t == e)))

def cat(parts):
    """right-nested concatenation of (term, literal or None)"""
    ps = []
    for t, l in parts:
        if l == '': continue
        if ps and l is not None and ps[-1][1] is not None: ps[-1] = (None, ps[-1][1] + l)
        else: ps.append((t, l))
    fs = set()
    ts = []
    for t, l in ps:
        if l is not None: c, f = lit(l); ts.append(c); fs |= f
        else: ts.append(t)
    if not ts: c, f = lit(''); return c, f
    r = ts[-1]
    for t in reversed(ts[:-1]):
        n = fn('cat', (A, A), A)(t, r); _keep.append(n)
        i, a = term_axioms(n)
        fs.add((i, a + (_len(n) == _len(t) + _len(r),)))
        r = n
    return r, frozenset(fs)

def flat(e, out):
    if z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT):
        for c in e.children(): flat(c, out)
    else: out.append(e)

def tr(e):
    """-> (abstract term, facts)"""
    k = e.get_id()
    m = _memo.get(k)
    if m is not None: return m
    r = _tr(e)
    _memo[k] = r; _keep.append(e); _keep.append(r[0])
    return r

EMPTY = frozenset()
def _tr(e):
    if z3.is_string_value(e): return lit(text(e))
    isstr = e.sort() == z3.StringSort()
    if z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT):
        ps = []; flat(e, ps)
        fs = EMPTY; out = []
        for p in ps:
            t, f = tr(p); fs |= f
            out.append((t, text(p) if z3.is_string_value(p) else None))
        t, f = cat(out)
        return t, fs | f
    ch = e.children()
    if not ch:
        if isstr:
            c = z3.Const(e.decl().name(), A); _keep.append(c)
            return c, frozenset([term_axioms(c), next(iter(lit('')[1]))])
        return e, EMPTY
    if z3.is_quantifier(e): return z3.BoolVal(True), EMPTY
    rs = [tr(c) for c in ch]
    fs = EMPTY
    for _, f in rs: fs |= f
    cs = [t for t, _ in rs]
    changed = any(a.get_id() != b.get_id() for a, b in zip(cs, ch))
    if not changed and not isstr: return e, fs
    d = e.decl(); kd = d.kind()
    if kd == z3.Z3_OP_EQ: return cs[0] == cs[1], fs
    if kd == z3.Z3_OP_DISTINCT: return z3.Distinct(*cs), fs
    if kd == z3.Z3_OP_ITE: return z3.If(*cs), fs
    if kd == z3.Z3_OP_SEQ_LENGTH: return _len(cs[0]), fs
    if kd == z3.Z3_OP_STR_TO_CODE:
        t = _code(cs[0]); _keep.append(t)
        return t, fs | {(t.get_id(), (t >= -1, t <= 196607, (t >= 0) == (_len(cs[0]) == 1)))}
    if all(a.get_id() == b.get_id() for a, b in zip(cs, ch)) and isstr or any(c.sort() == z3.StringSort() for c in ch) or isstr:
        nm = d.name() if kd == z3.Z3_OP_UNINTERPRETED else 'op%d' % kd
        t = fn(nm, [c.sort() for c in cs], A if isstr else e.sort())(*cs); _keep.append(t)
        if isstr:
            i, a = term_axioms(t); a = list(a)
            if kd == z3.Z3_OP_SEQ_AT: a.append(_len(t) == z3.If(z3.And(cs[1] >= 0, cs[1] < _len(cs[0])), 1, 0))
            if kd == z3.Z3_OP_SEQ_EXTRACT:
                s, o, n = cs
                a.append(_len(t) == z3.If(z3.And(o >= 0, n > 0, o < _len(s)), z3.If(n <= _len(s) - o, n, _len(s) - o), 0))
                a.append(z3.Implies(z3.And(o == 0, n >= _len(s)), t == s))
            fs |= {(i, tuple(a))} | lit('')[1]
        elif kd == z3.Z3_OP_SEQ_INDEX:
            o = cs[2] if len(cs) > 2 else I0
            fs |= {(t.get_id(), (t >= -1, z3.Implies(t >= 0, z3.And(t >= o, t + _len(cs[1]) <= _len(cs[0])))))}
        return t, fs
    return d(*cs), fs
