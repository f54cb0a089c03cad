"""Deductive driver: the real function against its contract, loop by loop.

A contract is a generator (`spec`) written against Ops.  A symbolic loop of the
implementation is cut at its head and paired with the contract's loop (x.loop): the
loop invariant is a conjunction of equalities between implementation state and contract
state (inferred by Houdini refinement to a fixpoint, then checked at entry and on every
back edge in the final round) plus the explicit facts the contract states (`inv`)."""
import time, traceback, z3
from fractions import Fraction
from .sym import *
from . import sym as S
from .ops import Ops, OutOfScope, lemma
from .interp import DB, Interp, CppThrow, ReturnX, Restart, UNINIT, Closure, BreakX, ContinueX

class SpecThrow(Exception):
    def __init__(self, t, args=None): self.t = t; self.args_ = args

class State:
    """mutable contract state; every attribute is a unit at loop heads"""
    def __init__(self, **k): self.__dict__.update(k)

class Loop:
    """inv(state): facts at the head; each: {vector attribute: predicate of every element};
    given(state): assumed at the head (a limit on the input);
    count: the attribute that counts the elements of a list dealt with so far"""
    def __init__(self, name, state, inv=None, variant=None, each=None, count=None, given=None):
        self.name, self.state, self.inv, self.variant, self.each, self.count, self.given = name, state, inv, variant, each or {}, count, given

class Info:
    def __init__(self):
        self.mod = set(); self.cls = {}; self.next = {}; self.opt = {}; self.lowers = {}; self.stable = True; self.nonneg = {}; self.suffix = {}; self.ranges = {}; self.slice = {}; self.step = {}
    def again(self):
        """forget what was found out without a relation found since"""
        m, r, a, b = self.mod, self.ranges, self.slice, self.step; self.__init__(); self.mod, self.ranges, self.slice, self.step = m, r, a, b

class Task:
    def __init__(self, name, tus, run, deadline=120, functions=(), timeout=8000):
        self.name, self.tus, self.run, self.deadline, self.functions, self.timeout = name, tus, run, deadline, list(functions), timeout

def kind_of(v):
    if isinstance(v, bool): return 'bool'
    if isinstance(v, int): return 'int'
    if isinstance(v, Fraction): return 'real'
    if isinstance(v, str): return 'str'
    if isinstance(v, CharV): return 'char'
    if isinstance(v, Opt): return 'opt:%s' % (v.t,)
    if isinstance(v, Vec): return 'vec:%s' % (v.t,)
    if isinstance(v, MapV): return 'map:%s' % (v.vt,)
    if is_term(v):
        s = v.sort()
        if s == z3.IntSort(): return 'int'
        if s == z3.BoolSort(): return 'bool'
        if s == z3.RealSort(): return 'real'
        if z3.is_string(v): return 'str'
    return None

class Prod:
    def __init__(self, task, stats, ctx, sym):
        self.task, self.stats, self.c, self.S = task, stats, ctx, sym
        self.info = {}; self.dirty = False; self.final = False
        self.acts = []; self.gen = None; self.pend = None; self.gen_done = False
        self.why_dirty = []; self.entry_count = {}; self.partner = {}

    # ----------------------------------------------------------- contract side
    def start(self, gen):
        self.gen = gen; self.gen_done = False; self.pend = None; self.spec_out = None; self.acts = []

    def advance(self):
        """run the contract to its next loop head; returns Loop or None when finished"""
        if self.pend is not None:
            p, self.pend = self.pend, None
            return p
        if self.gen_done: return None
        try:
            return next(self.gen)
        except StopIteration as s:
            self.gen_done = True; self.spec_out = ('ret', s.value); return None
        except SpecThrow as t:
            self.gen_done = True; self.spec_out = ('throw', t.t, t.args_); return None

    def finish(self):
        l = self.past(self.advance())
        if l is not None:
            if any(a[1] is l for a in self.acts): raise Mismatch(l.name, 'the code leaves loop "%s" where the contract iterates' % l.name)
            raise Mismatch(l.name, 'the code has no loop for contract loop "%s"' % l.name)
        return self.spec_out

    def past(self, l, stop=lambda l: False):
        """let the contract run through loops that it does not iterate and that the code need not enter at all"""
        while l is not None and not stop(l) and not any(a[1] is l for a in self.acts) and any(l.name in v for v in self.partner.values()):
            n = self.advance()
            if n is l: raise Mismatch(l.name, 'the code has no loop for contract loop "%s"' % l.name)
            l = n
        return l

    # ----------------------------------------------------------- units
    def units(self, it, loop):
        """{key: (value, declared type or None, setter)} of everything that exists before the loop"""
        out = {}
        def walk(key, v, t, setter):
            if isinstance(v, Rec):
                if v.t == 'istream' and 'k' not in v.f or v.t in ('linesource', 'regex', 'isany', 'path', 'bind', 'ofstream'): return
                ft = dict(all_fields(v.t)) if v.t in RECORDS else {}
                for k in sorted(v.f):
                    def s(nv, k=k, setter=setter, cur=[v]):
                        setter(('upd', k, nv))
                    walk(key + '.' + k, v.f[k], ft.get(k), s)
                return
            if isinstance(v, tuple) and v and v[0] == 'iter':
                out[key + '.it'] = (v[2], None, lambda nv: setter(('iter', v[1], nv))); return
            if isinstance(v, Ptr):
                out[key + '.off'] = (v.off, None, lambda nv: setter(Ptr(v.lv, nv, v.sv))); return
            if isinstance(v, (Opaque, NullP, Closure, LV)) or v is None: return
            out[key] = (v, t, setter)
        for r in it.live_roots():
            def set_root(nv, r=r):
                r.v = apply_upd(r.v, nv)
            walk('I:' + r.name, r.v, r.t, nest(set_root, lambda r=r: r.v))
        if loop is not None:
            for a in self.acts + ([(None, loop)] if not any(x[1] is loop for x in self.acts) else []):
                st = a[1].state
                for k in sorted(st.__dict__):
                    def set_st(nv, st=st, k=k): st.__dict__[k] = apply_upd(st.__dict__[k], nv)
                    walk('S:%s.%s' % (a[1].name, k), st.__dict__[k], None, nest(set_st, lambda st=st, k=k: st.__dict__[k]))
        return out

    # ----------------------------------------------------------- loop protocol
    def enter(self, it, key):
        if key in self.own: return None
        loop = self.advance()
        if key in self.partner: loop = self.past(loop, lambda l: l.name in self.partner[key])
        if loop is None: raise Mismatch(key, 'the code loops where the contract has finished')
        if any(a[1] is loop for a in self.acts):
            raise Mismatch(key, 'the code enters a loop where the contract iterates "%s"' % loop.name)
        if not any(loop.name in v for v in self.partner.values()) and self.stats.mismatch: self.mark('loop %s has a partner' % loop.name)
        self.partner.setdefault(key, set()).add(loop.name)
        key = key + '|' + loop.name
        self.stats.loops.add(key)
        inf = self.info.setdefault(key, Info())
        us = self.units(it, loop)
        if self.trace: print('ENTER', key, 'mod', sorted(inf.mod))
        if loop.count: self.entry_count[id(loop)] = loop.state.__dict__[loop.count]
        self.refine(inf, us, 'entry of ' + loop.name)
        for k in list(inf.mod):
            if k in us and isinstance(us[k][0], Opt): self.opt_cand(inf, k, us[k][0], True)
            if k in us: self.low_cand(inf, k, us[k][0], True)
        if loop.inv:
            for n, f in enumerate(loop.inv(loop.state)): self.c.oblige('loop invariant %s#%d holds on entry' % (loop.name, n), f)
        self.check_each(loop, 'holds on entry')
        # havoc
        reps = {}; later = []; sfx = {}; slices = []; steps = []; sl = {}; stp = {}; entry = {k: u[0] for k, u in us.items() if k in inf.mod}
        for k in sorted(inf.mod):
            if k not in us: continue
            v, t, setter = us[k]
            cl = inf.cls[k]
            if isinstance(v, Buf):              # the bytes the loop writes are unknown: reading them is an error until rewritten
                rs = inf.ranges.get(k)
                setter(Buf(v.size, v.writes + tuple((o, n, ('unknown',)) for o, n in sorted(rs))) if rs is not None else Buf(v.size)); continue
            if self.suffix_ok(inf, loop, k, v): later.append((k, v, setter)); continue
            if inf.slice.get(k) and self.alone(inf, k): slices.append((k, v, setter)); continue
            if inf.step.get(k) and self.alone(inf, k): steps.append((k, v, t, setter)); continue
            if v is UNINIT:
                if t is None: raise ToolLimit('uninitialised %s modified in a loop' % k)
                nv = self.S.fresh(t, self.c.fresh_name(k.split('/')[-1]))
            else:
                g = reps.get(cl)
                if g is None: g = reps[cl] = self.fresh_like(v, t, inf, k)
                nv = g
                if t is not None and is_term(nv) and z3.is_int(nv):
                    try:
                        lo, hi = int_range(strip(t)); self.c.assume(z3.And(nv >= lo, nv <= hi))
                    except ToolLimit: pass
            lo = inf.lowers.get(k)
            if lo is not None and is_term(nv) and z3.is_int(nv): self.c.assume(nv >= lo)
            setter(nv)
        for k, v, setter in later:
            if inf.cls[k] in reps: sfx[k] = reps[inf.cls[k]]; setter(reps[inf.cls[k]]); continue
            c = loop.state.__dict__[loop.count]; g = v.segs[0]
            nv = Vec(v.t, (Abs(self.S.fresh(('vec', v.t), self.c.fresh_name('h_pre_' + k.split('/')[-1].split('#')[0])).segs[0].seq, 0, c), Abs(g.seq, add(g.lo, c), g.hi)))
            sfx[k] = reps[inf.cls[k]] = nv; setter(nv)
        now = self.units(it, loop) if slices or steps else us
        for k, v, t, setter in steps:
            j, sg = inf.step[k]
            if j not in now or j not in inf.mod: inf.step[k] = False; self.mark('step ' + k); raise PathEnd()
            d = sub(now[j][0], entry[j]) if sg > 0 else sub(entry[j], now[j][0])
            nv = add(v, d); stp[k] = (j, sg)
            if is_term(nv):
                try:
                    lo, hi = int_range(strip(t)) if t is not None else (None, None)
                    if lo is not None: self.c.assume(z3.And(nv >= lo, nv <= hi))
                except ToolLimit: pass
                if inf.lowers.get(k) is not None: self.c.assume(nv >= inf.lowers[k])
            setter(nv)
        for k, v, setter in slices:
            T, n = inf.slice[k]
            if T not in now or n not in now or T in inf.mod: inf.slice[k] = False; self.mark('slice ' + k); raise PathEnd()
            t, i0, i = now[T][0], entry[n], now[n][0]
            self.c.assume(zbool(le(i0, i)))
            setter(it.lib.x.cat(v, it.lib.x.substr(t, i0, sub(i, i0)))); sl[k] = (T, n, t, v, i0, i)
        if loop.inv:
            for f in loop.inv(loop.state): self.c.assume(f)
        if loop.given:
            for f in loop.given(loop.state): self.c.assume(f)
        for a, p in loop.each.items():
            for g in loop.state.__dict__[a].segs:
                if isinstance(g, Abs): self.c.elem_inv.setdefault(g.seq.get_id(), []).append(p); self.c.keep.append(g.seq)
        # snapshot head values
        head = {k: u[0] for k, u in self.units(it, loop).items()}
        act = (key, loop, head, loop.variant(loop.state) if loop.variant else None, len(it.frames), sfx, sl, stp)
        self.acts.append((key, loop))
        return act

    def written(self, inf, k, h, v):
        """which bytes of a buffer the loop body writes"""
        if k in inf.ranges and inf.ranges[k] is None: return
        n = len(h.writes) if isinstance(h, Buf) else 0
        new = v.writes[n:] if isinstance(h, Buf) and v.writes[:n] == h.writes else None
        if new is None or any(is_term(o) or is_term(m) for o, m, _ in new): rs = None
        else: rs = inf.ranges.get(k, frozenset()) | {(o, m) for o, m, _ in new}
        if k not in inf.ranges or rs != inf.ranges[k]:
            inf.ranges[k] = rs
            if k in inf.mod: self.mark('bytes written of ' + k)

    def suffix_ok(self, inf, loop, k, v):
        """k is a list that the code changes in place, element by element"""
        if loop.count is None or not isinstance(v, Vec) or v.upds or len(v.segs) != 1 or not isinstance(v.segs[0], Abs): return False
        same = [j for j in inf.mod if inf.cls.get(j) == inf.cls[k]]
        if any(inf.suffix.get(j) is False for j in same): return False
        if k.startswith('S:') and len(same) == 1: return False
        if k not in inf.suffix:
            c = self.entry_count.get(id(loop))
            inf.suffix[k] = isinstance(c, int) and c == 0
        return inf.suffix[k]

    def alone(self, inf, k):
        return not any(j != k and inf.cls.get(j) == inf.cls.get(k) for j in inf.mod)

    def steps(self, it, inf, us, head, stp):
        """numbers of the code that move by as much as a number of the contract, up or down"""
        def delta(k):
            a, b = us[k][0], head[k]
            if not all(isinstance(v, int) and not isinstance(v, bool) or is_term(v) and z3.is_int(v) for v in (a, b)): return None
            d = sub(a, b)
            if is_term(d): d = z3.simplify(d); d = d.as_long() if z3.is_int_value(d) else None
            return d
        for k, (j, sg) in stp.items():
            a, b = delta(k), delta(j)
            if (a != sg * b) if a is not None and b is not None else not self.c.prove(zbool(self.S.eq(sub(us[k][0], head[k]), sub(us[j][0], head[j]) if sg > 0 else sub(head[j], us[j][0])))):
                inf.step[k] = False; self.mark('step %s' % k)
        for k in sorted(inf.mod):
            if not k.startswith('I:') or k in inf.step or k not in us or k not in head: continue
            if any(j != k and j.startswith('S:') and inf.cls.get(j) == inf.cls.get(k) for j in inf.mod): continue
            d = delta(k)
            if d is None: inf.step[k] = False; continue
            if d == 0 or not self.alone(inf, k): continue
            for j in sorted(inf.mod):
                if not j.startswith('S:') or j not in us or j not in head: continue
                if delta(j) in (d, -d):
                    inf.step[k] = (j, 1 if delta(j) == d else -1); self.mark('%s moves with %s' % (k, j))
                    for q in self.info.values(): q.again()
                    return
            inf.step[k] = False

    def slices(self, it, inf, us, head, sl):
        """strings that grow by what an index passes over in another string: s = s(entry) + T[i(entry) .. i)"""
        x = it.lib.x; c = self.c
        def lemma(t, a, b, d):
            x.glue(None, None)
            c.assume(z3.Implies(zbool(conj(le(0, a), le(a, b), le(b, d))), zbool(self.S.eq(x.cat(x.substr(t, a, sub(b, a)), x.substr(t, b, sub(d, b))), x.substr(t, a, sub(d, a))))))
        for k, (T, n, t, v0, i0, i) in sl.items():
            i1 = us[n][0]; v = us[k][0]; ok = c.prove(zbool(le(i, i1)))
            if ok:
                lemma(t, i0, i, i1)
                ok = self.S.eq(us[T][0], t) is True and c.prove(zbool(self.S.eq(v, x.cat(v0, x.substr(t, i0, sub(i1, i0))))))
            if not ok: inf.slice[k] = False; self.mark('slice %s' % k)
        for k in sorted(inf.mod):
            if k in inf.slice or k not in us or k not in head or k in sl: continue
            v, h = us[k][0], head[k]
            if not (is_term(h) and z3.is_string(h)) or v is h or not self.alone(inf, k): continue
            if self.S.eq(v, h) is True or c.decide(zbool(self.S.eq(v, h))): continue
            ints = [n for n in sorted(inf.mod) if n in us and n in head and is_term(head[n]) and z3.is_int(head[n]) and us[n][0] is not head[n]]
            for n in ints:
                for T in sorted(us):
                    t = us[T][0]
                    if T in inf.mod or not (is_term(t) and z3.is_string(t)) or T.startswith('S:'): continue
                    if c.prove(zbool(conj(lt(head[n], us[n][0]), self.S.eq(v, x.cat(h, x.substr(t, head[n], sub(us[n][0], head[n]))))))):
                        inf.slice[k] = (T, n); self.mark('%s grows along %s' % (k, T))
                        for j in self.info.values(): j.again()
                        return
            inf.slice[k] = False

    def check_each(self, loop, when):
        for a, p in loop.each.items():
            v = loop.state.__dict__[a]
            for e in [g.v for g in v.segs if isinstance(g, El)] + [u[1] for u in v.upds]:
                for f in p(e): self.c.oblige('loop invariant %s: every element of %s %s' % (loop.name, a, when), f)
            for g in v.segs:
                if isinstance(g, Abs) and p not in self.c.elem_inv.get(g.seq.get_id(), ()) and not self.S.same(g.lo, g.hi): raise ToolLimit('element invariant of %s' % a)

    def fresh_like(self, v, t, inf, k):
        nm = self.c.fresh_name('h_' + k.split('/')[-1].split('#')[0])
        if isinstance(v, Opt):
            o = inf.opt.get(inf.cls[k])
            if o is True: return Opt(v.t, True, self.S.fresh(v.t, nm))
            if o is False: return Opt(v.t, False, None)
            return self.S.fresh(('opt', v.t), nm)
        if isinstance(v, Vec): return self.S.fresh(('vec', v.t), nm)
        if isinstance(v, MapV): return self.S.fresh(('map', v.kt, v.vt), nm)
        if isinstance(v, CharV): return self.S.fresh(('char',), nm)
        kd = kind_of(v)
        if kd is None: raise ToolLimit('cannot generalise %s = %r' % (k, v))
        return z3.Const(nm, KINDS[{'int': 'int', 'bool': 'bool', 'real': 'real', 'str': 'str'}[kd]])

    def mark(self, why):
        self.dirty = True; self.c.skip = True; self.why_dirty.append(why)

    def opt_cand(self, inf, k, v, entry=False):
        """constant-presence candidate per class"""
        cl = inf.cls[k]
        h = v.has if isinstance(v.has, bool) else self.c.decide(v.has)
        if h is None and is_term(v.has):
            want = inf.opt.get(cl, '?')
            if want is True and self.c.prove(v.has): h = True
            if want is False and self.c.prove(z3.Not(v.has)): h = False
        cur = inf.opt.get(cl, '?')
        if cur == '?':
            inf.opt[cl] = h
        elif cur is not None and h is not cur:
            inf.opt[cl] = None; self.mark('presence of %s' % k)

    def low_cand(self, inf, k, v, entry=False):
        if k not in inf.lowers:
            if isinstance(v, int) and not isinstance(v, bool): inf.lowers[k] = v
            else: inf.lowers[k] = None
            return
        lo = inf.lowers[k]
        if lo is None: return
        ok = (v >= lo) if isinstance(v, int) else (self.c.prove(v >= lo) if is_term(v) and z3.is_int(v) else False)
        if not ok: inf.lowers[k] = None; self.mark('lower bound of ' + k)

    def refine(self, inf, us, where):
        """split classes of equal units by the values they have now"""
        groups = {}
        for k in sorted(inf.mod):
            if k not in us: continue
            if k not in inf.cls:
                inf.cls[k] = ('k', kind_of(us[k][0]) if us[k][0] is not UNINIT else 'uninit')
            groups.setdefault(inf.cls[k], []).append(k)
        for cl, ks in groups.items():
            if len(ks) < 2: continue
            reps = []   # (value, [keys])
            # contract units first so that they become representatives
            ks = sorted(ks, key=lambda k: (not k.startswith('S:'), k))
            for k in ks:
                v = us[k][0]
                near = [r for r in reps if self.eqv(r[0], v, False)]        # plainly equal before provably equal
                hit = near
                if not hit:
                    for r in reps:
                        if self.eqv(r[0], v, any(q[0] != k[0] for q in r[1])): hit.append(r)
                if not hit: reps.append((v, [k])); continue
                hit[0][1].append(k)
                for r in hit[1:]: hit[0][1].extend(r[1]); reps.remove(r)    # equal to both, so they are equal to each other here
            if len(reps) > 1:
                if self.c.strings and self.c.check(ms=self.c.branch_ms) == z3.unsat: raise PathEnd()      # nobody comes this way
                self.mark('equality split at %s: %s' % (where, [r[1] for r in reps]))
                for n, r in enumerate(reps):
                    for k in r[1]: inf.cls[k] = (cl, n)
                    if cl in inf.opt: inf.opt[(cl, n)] = inf.opt[cl]

    def eqv(self, a, b, cross):
        if a is UNINIT or b is UNINIT: return a is b
        try: f = self.S.eq(a, b)
        except ToolLimit: return False
        if isinstance(f, bool): return f
        if self.c.decide(f): return True
        if not cross: 
            return False
        return self.c.prove(f, quick=True)

    def backedge(self, it, act):
        key, loop, head, var0, nf, sfx, sl, stp = act
        l = self.past(self.advance())
        if l is not loop:
            raise Mismatch(loop.name, 'the code iterates loop "%s" where the contract %s' % (loop.name, 'leaves it' if l is None or True else ''))
        inf = self.info[key]
        us = self.units(it, loop)
        if self.trace: print('BACK', key)
        for k, (v, t, s) in us.items():
            if isinstance(v, Buf) and k in head and v is not head[k] and k not in inf.mod or isinstance(v, Buf) and k in inf.mod and k in head: self.written(inf, k, head[k], v)
            if k in inf.mod or k not in head: continue
            hv = head[k]
            if v is hv: continue
            same = False
            try:
                f = self.S.eq(hv, v) if not (hv is UNINIT or v is UNINIT) else False
                same = f is True or (is_term(f) and (self.c.decide(f) is True or (isinstance(hv, bool) and self.c.prove(f, quick=True))))
            except ToolLimit: same = False
            if not same:
                inf.mod.add(k); self.mark('modified ' + k)
        for k, h in sfx.items():
            # only elements already dealt with have been changed
            v = us[k][0] if k in us else None
            good = isinstance(v, Vec) and len(v.segs) == 2 and all(isinstance(a, Abs) and z3.eq(a.seq, b.seq) and self.S.same(a.lo, b.lo) and self.S.same(a.hi, b.hi) for a, b in zip(v.segs, h.segs))
            good = good and all(self.c.prove(zbool(lt(u[0], loop.state.__dict__[loop.count]))) for u in v.upds)
            if not good: inf.suffix[k] = False; self.mark('untouched rest of ' + k)
            elif not any(j != k and inf.cls.get(j) == inf.cls[k] for j in inf.mod): us[k] = (Vec(v.t, h.segs), us[k][1], us[k][2])
        self.refine(inf, us, 'back edge of ' + loop.name)
        self.steps(it, inf, us, head, stp)
        self.slices(it, inf, us, head, sl)
        for k in inf.mod:
            if k in us and k in inf.cls and isinstance(us[k][0], Opt): self.opt_cand(inf, k, us[k][0])
            if k in us: self.low_cand(inf, k, us[k][0])
        if loop.inv:
            for n, f in enumerate(loop.inv(loop.state)): self.c.oblige('loop invariant %s#%d is preserved' % (loop.name, n), f)
        self.check_each(loop, 'is preserved')
        if loop.variant:
            v1 = loop.variant(loop.state)
            self.c.oblige('loop %s terminates (variant decreases)' % loop.name, conj(lt(v1, var0), le(0, var0)))
        self.stats.backedges += 1

    def arrived(self, act):
        """is the contract at the head of this loop again?"""
        if act[1].name not in self.tails: return True
        self.pend = self.past(self.advance())
        return self.pend is act[1]
    def leave(self, it, act): pass
    def leave_after(self, it, act):
        """the code tests at the end of an iteration what the contract tests at the head"""
        l = self.advance()
        if l is not act[1]: self.pend = l
    trace = False

def nest(set_root, get):
    return set_root

def apply_upd(cur, nv):
    """('upd', field, value) updates along a record path"""
    if isinstance(nv, tuple) and len(nv) == 3 and nv[0] == 'upd':
        return cur.with_(nv[1], apply_upd(cur.f[nv[1]], nv[2]))
    return nv

# ------------------------------------------------------------------- exploration
def explore(task, db, stats, trace=False, log=None):
    """Returns 'proved' | 'refuted' | 'unknown' with stats filled in."""
    t0 = time.monotonic(); deadline = t0 + task.deadline
    force = set(); info = {}; partner = {}; tails = set(); own = set()
    rounds = 0
    while True:
        rounds += 1
        if rounds > 40: stats.undecided.append('loop invariants did not stabilise'); return 'unknown'
        st = stats.fork()
        ctx = Ctx(st, timeout_ms=task.timeout, deadline=deadline)
        sym = Sym(ctx)
        prod = Prod(task, st, ctx, sym); prod.info = info; prod.trace = trace; prod.partner = partner; prod.tails = tails; prod.own = own
        ctx.quick_round = True
        restart = False
        limit = None
        try:
            while True:
                try:
                    one_path(task, db, st, ctx, sym, prod, force)
                except PathEnd: pass
                except ToolLimit as e:
                    if 'time budget' in str(e) or ctx.check() != z3.unsat: raise
                except Mismatch as m:
                    if ctx.check() != z3.unsat: st.mismatch.append((m.name, m.why, str(ctx.pc[-3:])[:300]))
                    if prod.dirty is False: pass
                st.paths += 1
                if not ctx.next_path(): break
                ctx.begin()
        except Restart: restart = True
        except ToolLimit as e:
            limit = e
        if log: log('round %d: %d paths, %.1fs dirty=%s %s' % (rounds, st.paths, time.monotonic() - t0, prod.dirty, [w for w in prod.why_dirty if 'split' in w] if trace else ''))
        if limit is not None:   # the invariants are not final, so what was refuted under them is not settled
            for n, o in st.oblig.items():
                if o['refuted']: o['unknown'] += len(o['refuted']); o['refuted'] = []
            stats.join(st)
            stats.undecided.append(str(limit)); return 'unknown'
        if restart: continue
        if prod.dirty: continue
        late = {m[0] for m in st.mismatch if 'code iterates loop' in m[1]} - tails
        if late:            # give the code one more turn of these loops to notice what the contract has noticed
            tails |= late
            continue
        late = {m[0] for m in st.mismatch if 'code enters a loop' in m[1] or 'code loops where' in m[1]} - own
        if late:            # loops that the contract does not have: perhaps they only go round a few times
            own |= late; info.clear(); partner.clear()
            continue
        stats.join(st); stats.rounds = rounds
        break
    res = 'proved'
    if st.mismatch:         # the code does not go through the contract's loops, so their invariants do not say what they should
        for n, o in st.oblig.items():
            if o['refuted']: o['unknown'] += len(o['refuted']); o['refuted'] = []
    for n, o in st.oblig.items():
        if o['refuted']: return 'refuted'
        if o['unknown']: res = 'unknown'
    if st.mismatch:
        stats.undecided += ['%s: %s' % (a, b) for a, b, _ in st.mismatch[:5]]
        real = [m for m in st.mismatch if 'where the contract iterates' in m[1] and 'leaves loop' in m[1] or 'iterates loop' in m[1]]
        return 'mismatch' if real else 'unknown'
    return res

def one_path(task, db, stats, ctx, sym, prod, force):
    it = Interp(db, ctx, sym, prod)
    it.force_cut = force
    x = it.lib.x
    env = Env(task, it, x, prod)
    try:
        task.run(env)
    except RecursionError:
        raise ToolLimit('recursion')

class Env:
    """what a proof script works with"""
    def __init__(self, task, it, x, prod):
        self.task, self.it, self.x, self.prod, self.c, self.S = task, it, x, prod, it.c, it.S
        x.loop = lambda name, state, inv=None, variant=None, each=None, count=None, given=None: Loop(name, state, inv, variant, each, count, given)
        x.throw = _throw
    def fresh(self, t, name): return self.S.fresh(ty(t) if isinstance(t, str) else t, name)
    def var(self, name, t, v=None):
        """a caller-owned variable the code receives by reference"""
        t = ty(t) if isinstance(t, str) else t
        if v is None: v = self.S.fresh(t, name)
        r = Root('arg:' + name, t, v, 0); self.it.groots['arg:' + name] = r
        return LV(r)
    def linesource(self, ident='src'):
        r = Root('arg:' + ident + '.k', T_INT, 0, 0); self.it.groots[r.name] = r
        return Rec('linesource', {'id': z3.Const(ident, z3.IntSort()), 'k': r})
    def file(self, text, pos=0):
        r = Root('arg:file', None, Rec('file', {'text': text, 'pos': pos}), 0); self.it.groots[r.name] = r
        return Ptr(lv=LV(r))
    def textstream(self, ident='src'):
        return Rec('istream', {'id': z3.Const(ident, z3.IntSort()), 'k': 0, 'failed': False})
    def call_value(self, f):
        if isinstance(f, LV): f = self.it.load(f)
        if isinstance(f, Closure): return self.it.call_closure(f, [])
        return self.it.lib.call_object(f, {'args': [None]})
    def lemma(self, name, build, *args): lemma(self.c, name, build, *args)
    def hook(self, q, f): self.it.hooks[q] = f
    def modular(self, q, name, t, exc=None, this=True, pick=None, upd=None):
        """replace calls of q by its contract x.fn(name, t, ...) (arguments by value, receiver first)"""
        def h(it, th, args, node):
            a = ([th] if this and th is not None else []) + list(args)
            a = [it.load(v) if isinstance(v, LV) else v for v in a]
            if pick: a = pick(a)
            for k, e in enumerate([exc] if isinstance(exc, str) else exc or ()):
                if it.c.branch(uf('c_%s.throws%s' % (name, k or ''), 'bool', it.S.flat(a))): raise CppThrow(e, (), '')
            r = it.S.ufv('c_' + name, t, *a) if t is not None else None
            it.c.stats.modular.add(q)
            if upd is None: return r
            it.store(th if upd == 'this' else args[upd], r)
        self.it.hooks[q] = h
    def call(self, q, this, args, pred=None):
        """-> ('ret', value) | ('throw', type)"""
        f = self.it.find(q, pred)
        self.c.stats.functions.add(f['key'])
        try:
            v = self.it.call_def(f, this, args)
            if isinstance(v, LV): v = self.it.load(v)
            return ('ret', v)
        except CppThrow as t:
            return ('throw', t.t, list(t.args_))
    def construct(self, q, cls, args, pred=None):
        f = self.it.find(q, pred)
        self.c.stats.functions.add(f['key'])
        try: return ('ret', self.it.construct(cls, f, args))
        except CppThrow as t: return ('throw', t.t, list(t.args_))
    def spec(self, gen):
        self.prod.start(gen if hasattr(gen, '__next__') else _once(gen))
    def compare(self, what, out, effects=(), result=True):
        """oblige outcome equality; effects: [(name, implementation value, lambda: contract value)]"""
        so = self.prod.finish()
        if out[0] != so[0] or (out[0] == 'throw' and out[1] != so[1]):
            self.c.oblige('%s: outcome (code: %s, contract: %s)' % (what, ' '.join(str(z) for z in out[:2] if not is_term(z))[:60] if out[0] == 'throw' else 'returns',
                          'throws ' + str(so[1]) if so[0] == 'throw' else 'returns'), False)
            return
        if out[0] == 'throw':
            self.c.oblige('%s: throws %s exactly when the contract does' % (what, out[1]), True)
            for k, (p, q) in enumerate(zip(out[2], so[2] or ())):
                if q is not None: self.eq('%s: argument %d of %s' % (what, k, out[1]), p, q)
            return
        if result: self.eq('%s: result' % what, out[1], so[1])
        for n, a, b in effects:
            self.eq('%s: %s' % (what, n), a() if callable(a) else a, b() if callable(b) else b)
    def eq(self, name, a, b):
        if isinstance(a, LV): a = self.it.load(a)
        for n, p, q in leaves(a, b):
            nm = name + n
            if p is UNINIT or q is UNINIT:
                self.c.oblige(nm, p is q); continue
            self.c.oblige(nm, self.S.eq(p, q))

def leaves(a, b, pre=''):
    if isinstance(a, Rec) and isinstance(b, Rec) and set(a.f) == set(b.f):
        for k in sorted(a.f): yield from leaves(a.f[k], b.f[k], pre + '.' + k)
    else: yield pre, a, b

def _once(v):
    return v
    yield
def _throw(t, *args): raise SpecThrow(t, args or None)

def gen(fn):
    """make a plain function a contract generator"""
    def g(*a, **k):
        return fn(*a, **k)
        yield
    return g
