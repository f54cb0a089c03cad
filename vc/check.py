"""Run one property's check: prove its contracts on /repo's current source, replay on the real code, report."""
import os, sys, json, time, random, importlib, traceback, subprocess, multiprocessing as mp, collections, re, glob
from .sym import *
from . import sym as S
from .prod import explore, Task
from .load import extract, VERIF, REPO
from . import replay as RP
from .ops import OutOfScope

Case = collections.namedtuple('Case', 'line exp note')
sys.setrecursionlimit(20000)

def mine(tus):
    """string and number literals of the current source (cases are built from them too)"""
    strs, nums = set(), set()
    for t in tus:
        for ext in ('.cc', '.h'):
            p = REPO + '/src/' + t + ext
            if not os.path.exists(p): continue
            s = open(p, errors='replace').read()
            s = re.sub(r'^\s*#include.*$', '', s, flags=re.M); s = re.sub(r'/\*.*?\*/', '', s, flags=re.S); s = re.sub(r'//.*', '', s)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
                try: strs.add(m.group(1).encode().decode('unicode_escape').encode('latin-1', 'replace').decode('latin-1'))
                except Exception: pass
            for m in re.finditer(r"'((?:[^'\\\n]|\\.)+)'", s):
                try: strs.add(m.group(1).encode().decode('unicode_escape'))
                except Exception: pass
            for m in re.finditer(r'\b(0x[0-9a-fA-F]+|\d+)\b', s):
                v = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1), 10)
                if v < 1 << 31: nums.add(v)
    return sorted(x for x in strs if 0 < len(x) < 60), sorted(nums)

_W = {}
def _worker(args):
    mod, name, tus, deadline, end = args
    t0 = time.monotonic()
    try:
        m = importlib.import_module('specs.' + mod)
        task = [t for t in m.tasks() if t.name == name][0]
        if deadline: task.deadline = deadline
        task.deadline = min(task.deadline, end - t0)
        if task.deadline < 2: raise ToolLimit('time budget of the whole check exhausted')
        db = _W.get(tuple(tus))
        if db is None: db, _ = extract(tus); _W[tuple(tus)] = db
        st = Stats()
        r = explore(task, db, st)
    except ToolLimit as e:
        st = Stats(); st.undecided.append(str(e)); r = 'unknown'
    except Exception as e:
        st = Stats(); st.undecided.append('engine: %s %s' % (type(e).__name__, traceback.format_exc()[-700:])); r = 'unknown'
    d = dict(result=r, wall=time.monotonic() - t0, oblig=st.oblig, solver_s=st.solver_s, queries=st.queries, paths=st.paths, backedges=st.backedges,
             rounds=st.rounds, backend=st.backend, assumed=sorted(st.assumed), models=sorted(st.models), functions=sorted(st.functions), inlined=sorted(st.inlined),
             modular=sorted(st.modular), loops=sorted(st.loops), undecided=st.undecided, mismatch=[(a, b) for a, b, *_ in st.mismatch][:10])
    return name, d

def safety_only(d):
    """keep what an obligation says about accesses; where the function does not do what its contract says, its invariants say nothing about accesses either"""
    acc = lambda o: '@' in o and 'overflow' not in o and 'float-to-int' not in o
    other = d['mismatch'] or any(q['refuted'] for o, q in d['oblig'].items() if not acc(o))
    for o, q in d['oblig'].items():
        if q['refuted'] and (other or not acc(o)): q['unknown'] = list(q['unknown'] if isinstance(q['unknown'], list) else []) + ['%s does not hold' % o]; q['refuted'] = []
    if other: d['result'] = 'unknown'; d['undecided'].append('the function does not follow its contract')
    elif d['result'] == 'refuted' and not any(q['refuted'] for q in d['oblig'].values()): d['result'] = 'unknown'

def judge(case, got):
    """None if fine, else description"""
    if got is None: return None
    e = case.exp
    if got[0] == 'crash': return e.crash(got[1]) if hasattr(e, 'crash') else 'the code crashed: ' + got[1]
    if e is None: return None
    if callable(e):
        return e(got)
    if e[0] == 'throw':
        if got[0] == 'throw' and (got[1] == e[1] or e[1] == '*'): return None
        return 'expected exception %s, got %s' % (e[1], str(got[:2])[:300])
    if got[0] == 'throw': return 'unexpected exception %s: %s' % (got[1], str(got[2].get('what', ''))[:200])
    if RP.same(RP.js(e[1]), got[1]): return None
    return 'expected %s, got %s' % diffshow(RP.js(e[1]), got[1])

def diffshow(a, b):
    while isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        d = [(x, y) for x, y in zip(a, b) if not RP.same(x, y)]
        if len(d) != 1: break
        a, b = d[0]
    return repr(a)[:400], repr(b)[:400]

def main(argv):
    pid = argv[0]; tier = 'thorough' if '--thorough' in argv else 'quick'
    if os.environ.get('VERIF_TIER') == 'thorough': tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.monotonic()
    sys.path.insert(0, VERIF)
    modn = pid.lower()
    os.makedirs(VERIF + '/evidence', exist_ok=True); os.makedirs(VERIF + '/build', exist_ok=True)
    mod = importlib.import_module('specs.' + modn)
    props = {json.loads(l)['id']: json.loads(l) for l in open(VERIF + '/properties.jsonl')} if os.path.exists(VERIF + '/properties.jsonl') else {}
    # 1. build the replay driver alongside
    drv = {}
    # (in a process of its own: a thread's pipes would be inherited by the proof workers)
    bp = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r)\nfrom vc.replay import build_driver\nprint("DRIVER " + build_driver())' % VERIF], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True)
    def join_driver():
        out = bp.communicate()[0]; m = re.search(r'^DRIVER (.*)$', out, re.M)
        if m and bp.returncode == 0: drv['exe'] = m.group(1)
        else: drv['err'] = out[-1500:]
    # 2. prove; meanwhile 3. replay on the real code
    tasks = mod.tasks(); results = {}; ex_err = None; ext_s = 0
    if '--no-proof' in argv: tasks = []
    only = [a[7:] for a in argv if a.startswith('--task=')]
    if only: tasks = [t for t in tasks if t.name in only]
    pool = it = None; end = t0 + (500 if tier == 'quick' else 5000)
    if tasks:
        alltus = sorted({u for t in tasks for u in t.tus})
        try: _, ext_s = extract(alltus)
        except Exception as e: ex_err = str(e)
        if ex_err is None:
            pool = mp.Pool(min(7, len(tasks)), maxtasksperchild=None)
            it = pool.imap_unordered(_worker, [(modn, t.name, t.tus, t.deadline * (2 if tier == 'thorough' else 1), end) for t in sorted(tasks, key=lambda t: -t.deadline)])
    join_driver()
    rng = random.Random(seed * 7919 + 13)
    tus = sorted({u for t in mod.tasks() for u in t.tus}) if not hasattr(mod, 'MINE') else mod.MINE
    strs, nums = mine([t for t in tus if not t.startswith('@')])
    mined = {'strs': strs, 'nums': nums}
    cases = []; skipped = 0; seen = set(); viol = []; ran = 0; outcomes = collections.Counter()
    def gen(n, glimit):
        nonlocal skipped
        new = []; tgen = time.monotonic(); g = mod.cases(rng, n, mined); dup = 0
        while True:
            try: c = next(g)
            except StopIteration: break
            except OutOfScope:
                skipped += 1; g = mod.cases(rng, n, mined)
                if skipped > 50 * n: break
                continue
            if c is None: skipped += 1; continue
            if c.line in seen:
                dup += 1
                if dup > 3000 or time.monotonic() - tgen > glimit: break
                continue
            dup = 0; seen.add(c.line); new.append(c)
            if len(new) >= n or time.monotonic() - tgen > glimit: break
        return new
    def run(new, budget):
        nonlocal ran
        if 'exe' not in drv: return
        cases.extend(new)
        for c, o in zip(new, RP.run_cases(drv['exe'], [c.line for c in new], budget=budget)):
            if o is None: continue
            ran += 1; outcomes[o[0] if o[0] != 'throw' else 'throws ' + o[1]] += 1
            why = judge(c, o)
            if why: viol.append((c, why, o))
    n = (mod.CASES if hasattr(mod, 'CASES') else 1500) * (8 if tier == 'thorough' else 1)
    glimit = 30 if tier == 'quick' else 200; rbudget = 100 if tier == 'quick' else 500
    run(gen(n, glimit), rbudget)
    if it is not None:
        # once the real code has been seen to fail, the proof gets another minute to name the obligations
        stop = time.monotonic() + 60 if viol else end + 60
        while True:
            try: name, d = it.next(max(0.1, stop - time.monotonic()))
            except StopIteration: break
            except mp.TimeoutError: break
            if getattr(mod, 'SAFETY_ONLY', False): safety_only(d)
            results[name] = d
            if '-v' in argv: print('%-44s %-9s %6.1fs paths=%d loops=%d %s %s' % (name, d['result'], d['wall'], d['paths'], len(d['loops']), d['undecided'][:2], d['mismatch'][:2]))
            if '-v' in argv:
                for o, q in d['oblig'].items():
                    if q['refuted'] or q['unknown']: print('    %s: %s ok of %s, refuted %d, unknown %s  %s' % (o, q['ok'], q['n'], len(q['refuted']), str(q['unknown'])[:100], [(r['loc'], str(r['goal'])[:200], str(r['model'])[:300]) for r in q['refuted'][:1]]))
        pool.terminate(); pool.join()
        for t in tasks:
            if t.name not in results:
                results[t.name] = dict(result='unknown', wall=time.monotonic() - t0, oblig={}, solver_s=0, queries=0, paths=0, backedges=0, rounds=0, backend={}, assumed=[], models=[], functions=[], inlined=[], modular=[], loops=[],
                                       undecided=['stopped: the replay had already found a violation' if viol else 'time budget of the whole check exhausted'], mismatch=[])
    refuted = [(n, o) for n, d in results.items() for o in d['oblig'] if d['oblig'][o]['refuted']]
    suspicious = bool(refuted) or any(d['result'] != 'proved' for d in results.values()) or ex_err is not None
    if suspicious and not viol:
        new = []
        if hasattr(mod, 'from_model'):
            for name, d in results.items():
                for o in d['oblig']:
                    for r in d['oblig'][o]['refuted'][:3]:
                        try: new += [c for c in (mod.from_model(name, r['model']) or []) if c.line not in seen]
                        except (OutOfScope, KeyError, ValueError, TypeError, ArithmeticError): pass
        run(new + gen(n * 3, glimit * 2), rbudget)
    # 4. verdict
    lines = []; code = 0
    rdir = VERIF + '/build/violations'; os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + '/%s-*' % pid): os.unlink(f)
    known = load_known(pid)
    nv = 0
    if viol:
        shown = 0
        for c, why, o in viol:
            k = [f for f in known if f.get('match') and f['match'] in c.line]
            if k:
                s = 'KNOWN-FINDING: property=%s %s' % (pid, k[0]['what'])
                if s not in lines: lines.append(s)
                continue
            nv += 1; code = 1
            if shown < 5:
                shown += 1
                p = '%s/%s-%d.txt' % (rdir, pid, shown)
                with open(p, 'w') as f:
                    f.write('property: %s\ncase (driver input): %s\nabout: %s\n%s\nobserved: %s\n' % (pid, c.line, c.note, why, repr(o)[:3000]))
                    f.write('failed obligations: %s\n' % [x[0] + ' / ' + x[1] for x in refuted][:20])
                    f.write('rerun: printf "%%s\\n" "<case>" | %s <scratch dir>\n' % drv.get('exe'))
                lines.append('VIOLATION property=%s replay=%s' % (pid, p)); print('  %s\n    %s' % (c.note[:300] if c.note else c.line[:300], why[:600]))
    if refuted and not nv:
        code = 1; nv += 1
        p = '%s/%s-obligation.txt' % (rdir, pid)
        with open(p, 'w') as f:
            for nme, o in refuted:
                f.write('task %s: obligation "%s" fails\n' % (nme, o))
                for r in results[nme]['oblig'][o]['refuted'][:3]:
                    f.write('  at %s\n  goal %s\n  model %s\n' % (r['loc'], r['goal'], json.dumps(r['model'], indent=1)))
            f.write('%d cases were replayed on the real code without reproducing it\n' % ran)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
        for nme, o in refuted[:8]: print('  failed obligation: %s / %s' % (nme, o))
    # vacuity
    for nme, d in results.items():
        if d['result'] == 'proved' and sum(o['n'] for o in d['oblig'].values()) == 0:
            print('  vacuous proof: ' + nme); d['result'] = 'unknown'; d['undecided'].append('no obligations generated')
    tot = sum(o['n'] for d in results.values() for o in d['oblig'].values()); ok = sum(o['ok'] for d in results.values() for o in d['oblig'].values())
    und = {n: (d['undecided'] + ['%s: %s' % (a, b) for a, b in d['mismatch']] + [o for o in d['oblig'] if d['oblig'][o]['unknown']])[:6] for n, d in results.items() if d['result'] in ('unknown', 'mismatch')}
    if ex_err: und['extraction'] = [ex_err]
    for u in und: print('  not decided deductively (bounded replay stands in): %s: %s' % (u, und[u][:2]))
    if 'err' in drv: print('  replay driver unavailable: ' + drv['err'][:400])
    backend = collections.Counter()
    for d in results.values(): backend.update(d['backend'])
    full = not und and tot > 0 and tot == ok
    lvl = 'proof' if tot > 0 else 'other'
    trusted = sorted({m for d in results.values() for m in d['models']} | {a for d in results.values() for a in d['assumed']} | set(getattr(mod, 'TRUSTED', [])))
    base = ['clang 18 front end and tools/extract (AST dump of /repo/src)', 'vc/interp.py, vc/lib.py (C++ and library semantics)', 'z3 (Python API) / cvc5']
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, wall_s=round(time.monotonic() - t0, 2), violations=nv,
              assumptions=trusted + list(getattr(mod, 'ASSUMES', [])),
              coverage=dict(obligations=tot, discharged=ok, checker_cmd='python3-vt /verif/check.py %s%s' % (pid, ' --thorough' if tier == 'thorough' else ''),
                            trusted_base=base + trusted, complete=full,
                            functions_under_contract=sorted({f for d in results.values() for f in d['functions']}),
                            functions_inlined=sorted({f for d in results.values() for f in d['inlined']}), functions_by_contract=sorted({f for d in results.values() for f in d['modular']}),
                            loops_with_invariants=sorted({l for d in results.values() for l in d['loops']}),
                            paths=sum(d['paths'] for d in results.values()), solver_queries=sum(d['queries'] for d in results.values()),
                            solver_s=round(sum(d['solver_s'] for d in results.values()), 2), extraction_s=round(ext_s, 2), obligations_by_backend=dict(backend),
                            tasks={n: dict(result=d['result'], wall_s=round(d['wall'], 2), obligations=sum(o['n'] for o in d['oblig'].values())) for n, d in results.items()},
                            undecided_bounded_stand_in=und, bounded=list(getattr(mod, 'BOUNDED', [])),
                            evaluations=ran, distinct_nontrivial=ran, rule='distinct protocol lines; each runs the ASan/UBSan build of /repo/src and is judged by the same contract evaluated concretely; generators seeded by VERIF_SEED and by literals of the current source',
                            samples=[dict(case=c.line[:200], about=str(c.note)[:200]) for c in cases[:2]], outcomes=dict(outcomes), out_of_scope_skipped=skipped,
                            explanation='Contracts on the real code, discharged per obligation; replay conformance is bounded and not counted as proof.'))
    json.dump(ev, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1, default=str)
    for l in lines: print(l)
    print('%s: %d/%d obligations discharged, %d cases replayed, %d tasks (%s) %.1fs' % (pid, ok, tot, ran, len(results), ', '.join('%s=%d' % kv for kv in sorted(collections.Counter(d['result'] for d in results.values()).items())), time.monotonic() - t0))
    if not ran and not tot: print('no verdict'); return 2
    return code

def load_known(pid):
    out = []
    p = VERIF + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or not l.startswith('{'): continue
            d = json.loads(l)
            if d.get('property') == pid and d.get('status') == 'known': out.append(d)
    return out
