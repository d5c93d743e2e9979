#!/usr/bin/env python3-vt
"""Driver: decides one property from /repo's current source.

  check.py C01 [--only TASK] [--verbose] [--no-native]

1. every task of the property generates its obligations from clang's AST of the current
   headers and discharges them (z3 in process, then z3-new / cvc5 / z3 in parallel);
2. the executable form of the contracts is run against the real headers (native/*.cpp):
   it replays the deductive verdict, and searches a failing input when an obligation fails;
3. evidence/<id>.json and, for a violation, replay/<id>.txt are written.
"""
import sys, os, time, json, re, subprocess, tempfile, multiprocessing, traceback, importlib, hashlib, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
if os.environ.get('PYTHONHASHSEED') != '0':      # same order of candidates and queries on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import z3
from front import *
from engine import *
import lib

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = min(8, os.cpu_count() or 4)

MODULES = {}


def load():
    d = os.path.join(HERE, 'specs')
    sys.path.insert(0, d)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            m = importlib.import_module(f[:-3])
            for pid, spec in getattr(m, 'SPECS', {}).items(): MODULES[pid] = spec


class Ck:
    """what a task sees"""
    progs = {}

    def __init__(self, label):
        self.label, self.engs, self.covers = label, [], []
        self.functions = set()
        self.trusted = set()

    def prog(self, header, inst='', **kw):
        k = (header, inst, repr(sorted(kw.items())))
        if k not in Ck.progs: Ck.progs[k] = Program(header, inst, **kw)
        return Ck.progs[k]

    def engine(self, prog, tparams=None, budget=None):
        e = Engine(prog, tparams)
        e.deadline = time.time() + (budget or (240 if TIER == 'quick' else 900))
        e.context = self.label
        self.engs.append(e)
        return e

    def cover(self, eng, st, what='exit reachable', extra=Tt):
        self.covers.append((eng, Obl(f'{self.label}: {what}', list(eng.facts), list(st.pc) + [extra], Ff, 'cover')))

    def under(self, *fs):
        for f in fs: self.functions.add(repr(f))


# ---------------------------------------------------------------- discharging
SOLVERS = [('z3-new', ['z3-new', '-smt2']), ('cvc5', ['cvc5', '--lang=smt2']), ('z3', ['z3', '-smt2'])]


def smt2(o, logic=None):
    s = z3.Solver()
    for f in o.facts: s.add(f)
    for p in o.pc: s.add(p)
    s.add(z3.Not(o.goal))
    return s.to_smt2()


def inproc(o, ms, kind):
    if kind == 'simple':
        s = z3.SimpleSolver()
        s.set('mbqi', False)
        s.set('auto_config', False)
    else:
        s = z3.Solver()
    s.set('timeout', ms)
    s.set('random_seed', Engine.ATTEMPT)
    for f in o.facts: s.add(f)
    for p in o.pc: s.add(p)
    s.add(z3.Not(o.goal))
    r = s.check()
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat and kind != 'simple':
        return 'sat', str(s.model())[:4000]
    return 'unknown', None


def portfolio(o, secs):
    """(verdict, solver): first solver that answers unsat (or sat)"""
    d = tempfile.mkdtemp(prefix='dvq')
    p = os.path.join(d, 'q.smt2')
    open(p, 'w').write(smt2(o))
    ps = []
    for n, cmd in SOLVERS:
        extra = [f'-T:{secs}'] if 'z3' in n else [f'--tlimit={secs * 1000}']
        ps.append((n, subprocess.Popen(cmd + extra + [p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)))
    t0 = time.time()
    verdict = ('unknown', None)
    live = dict(ps)
    while live and time.time() - t0 < secs + 5:
        for n, pr in list(live.items()):
            if pr.poll() is not None:
                out = (pr.stdout.read() or '').strip().split('\n')[0]
                del live[n]
                if out == 'unsat':
                    verdict = ('unsat', n)
                    live_kill(live)
                    live = {}
                    break
                if out == 'sat' and verdict[0] == 'unknown': verdict = ('sat', n)
        else:
            time.sleep(0.02)
    live_kill(live)
    shutil.rmtree(d, ignore_errors=True)
    return verdict


def live_kill(live):
    for n, pr in live.items():
        try:
            os.killpg(pr.pid, signal.SIGKILL)
            pr.wait()
        except Exception: pass


def discharge(obls, verbose=False, hard=None):
    """[(name, kind, status, by, secs, model)]"""
    hard = hard or (25 if TIER == 'quick' else 120)
    out = []
    budget = time.time() + (300 if TIER == 'quick' else 1500)
    failed = 0
    for o in obls:
        t0 = time.time()
        st, by, model = 'unknown', None, None
        v, m = inproc(o, 6000, 'simple')
        if v == 'unsat': st, by = 'proved', 'z3 (in process)'
        else:
            # an obligation that resists: the other back ends, in parallel (fewer seconds once several have failed)
            secs = hard if failed < 3 else 8
            if time.time() > budget: secs = 3
            v, n = portfolio(o, secs)
            if v == 'unsat': st, by = 'proved', n
            else:
                v2, m = inproc(o, 4000 if failed < 6 else 500, 'default')
                if v2 == 'unsat': st, by = 'proved', 'z3 (mbqi)'
                else:
                    failed += 1
                    st = 'refuted' if v2 == 'sat' or v == 'sat' else 'undecided'
                    by, model = (n or 'z3' if st == 'refuted' else None), m
        dt = time.time() - t0
        if verbose and (st != 'proved' or dt > 2): print(f'   [{st}] {o.name} ({by}, {dt:.1f}s)', flush=True)
        out.append(dict(name=o.name, kind=o.kind, status=st, by=by, secs=round(dt, 3), model=model,
                        goal=str(o.goal)[:1500] if st != 'proved' else None))
    return out


def run_task(args):
    pid, name, fn, verbose, attempt = args[:5]
    Engine.ATTEMPT = attempt
    Engine.HINTS = args[5] if len(args) > 5 else None
    Engine.ALIVE = set()
    ck = Ck(name)
    t0 = time.time()
    res = dict(task=name, obls=[], covers=[], error=None, functions=[], inlined=[], contracted=[], assumptions=[], trusted=[], loops=0,
               inv=0, gen_q=0, gen_secs=0.0)
    try:
        fn(ck)
    except (Unsupported, ExtractError) as e:
        res['error'] = f'{type(e).__name__}: {e}'
        if os.environ.get('DV_TRACE'): traceback.print_exc()
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, z3.Z3Exception, StopIteration, RecursionError, AssertionError) as e:
        res['error'] = f'translation failed: {type(e).__name__}: {e}'
        if os.environ.get('DV_TRACE'): traceback.print_exc()
    t1 = time.time()
    obls = [o for e in ck.engs for o in e.obls]
    if verbose: print(f'  {name}: {len(obls)} obligations generated in {t1 - t0:.1f}s', flush=True)
    res['obls'] = discharge(obls, verbose)
    # vacuity: no context may be contradictory
    for eng, o in ck.covers:
        v, _ = inproc(o, 3000, 'simple')
        if v == 'unsat': res['covers'].append((o.name, 'VACUOUS'))
        else: res['covers'].append((o.name, 'ok'))
    for e in ck.engs:
        res['inlined'] += sorted(e.stats['inlined'])
        res['contracted'] += sorted(e.stats['contracted'])
        res['assumptions'] += sorted(e.assumptions)
        res['loops'] += e.stats['loops']
        res['inv'] += e.stats['inv_proved']
        res['gen_q'] += e.stats['queries']
        res['gen_secs'] += e.stats['secs']
    res['alive'] = sorted(Engine.ALIVE)
    res['functions'] = sorted(ck.functions)
    res['trusted'] = sorted(ck.trusted)
    res['secs'] = time.time() - t0
    if verbose:
        bad = [o for o in res['obls'] if o['status'] != 'proved']
        print(f"  {name}: {len(res['obls']) - len(bad)}/{len(res['obls'])} discharged, {res['loops']} loop visits, {res['secs']:.1f}s {res['error'] or ''}", flush=True)
    return res


def _child(conn, a):
    try: conn.send(run_task(a))
    except BaseException as e: conn.send(dict(task=a[1], obls=[], covers=[], error=f'crash: {e!r}', functions=[], inlined=[], contracted=[], assumptions=[], trusted=[], loops=0, inv=0, gen_q=0, gen_secs=0, secs=0))
    conn.close()


def run_tasks(jobs, limit=None):
    """each task in a forked child; a child that dies or hangs is an error of that task"""
    limit = limit or (500 if TIER == 'quick' else 2400)
    todo, live, res = list(jobs), [], []
    ctx = multiprocessing.get_context('fork')
    while todo or live:
        while todo and len(live) < NPROC:
            a = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, a))
            p.start()
            w.close()
            live.append((p, r, a, time.time()))
        time.sleep(0.02)
        for t in list(live):
            p, r, a, t0 = t
            got = None
            if r.poll():
                try: got = r.recv()
                except EOFError: got = None
                p.join(5)
            elif p.is_alive() and time.time() - t0 < limit: continue
            if got is None:
                p.kill()
                got = dict(task=a[1], obls=[], covers=[], error='the verifier ran out of time or memory', functions=[], inlined=[], contracted=[], assumptions=[], trusted=[], loops=0, inv=0, gen_q=0, gen_secs=0, secs=time.time() - t0)
            got['attempt'] = a[4]
            res.append(got)
            live.remove(t)
    order = {(a[1], a[4]): n for n, a in enumerate(jobs)}
    return sorted(res, key=lambda r: order[(r['task'], r['attempt'])])


# ---------------------------------------------------------------- native replay / search
def native(spec, pid, secs, verbose=False):
    """run the executable contracts against the real headers.
    -> dict(status = ok|fail|unavailable, cases, nontrivial, text, samples)"""
    src = spec.get('native')
    if not src: return dict(status='unavailable', text='no native harness', cases=0, nontrivial=0, samples=[])
    d = tempfile.mkdtemp(prefix='dvn')
    try:
        lits = set()
        for h in spec.get('headers', []):
            try: lits |= set(literals(h))
            except OSError: pass
        ints = sorted({int(x) for x in lits if float(x).is_integer() and 0 < x < 100000})
        sizes = sorted({y for x in ints for y in (x - 1, x, x + 1) if 2 <= y <= 300} - set(spec.get('no_sizes', ())))[:10]
        exe = os.path.join(d, 'h')
        lit = ','.join(repr(float(x)) for x in sorted(lits)) or '0'
        sz = ','.join(str(x) for x in sizes)
        cmd = ['g++', '-std=c++17', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize=float-cast-overflow,float-divide-by-zero,vptr', '-fno-sanitize-recover=all', *spec.get('native_flags', []), f'-DPID={int(pid[1:])}',
               f'-DLITS={lit}', f'-DMORE_SIZES={"," if sizes else ""}{sz}', '-I' + SRC, '-I' + os.path.join(ROOT, 'native'), os.path.join(ROOT, 'native', src), '-o', exe]
        t0 = time.time()
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
        if r.returncode != 0:
            return dict(status='unavailable', text='the harness does not compile:\n' + r.stderr[:1500], cases=0, nontrivial=0, samples=[])
        tc = time.time() - t0
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=99')
        procs = []
        n = max(1, min(NPROC, spec.get('native_procs', 4)))
        for i in range(n):
            fp = os.path.join(d, f'out{i}')
            procs.append((subprocess.Popen([exe, str(SEED * 1000 + i), str(secs), str(i), str(n)], stdout=open(fp, 'w'), stderr=subprocess.STDOUT, env=env, cwd=d), fp))
        outs, files = [], []
        t1 = time.time()
        while time.time() - t1 < secs + 60:
            rcs = [pr.poll() for pr, _ in procs]
            if all(r is not None for r in rcs) or any(r not in (None, 0) for r in rcs): break
            time.sleep(0.05)
        stop = any(pr.poll() not in (None, 0) for pr, _ in procs)
        for pr, fp in procs:
            hung = pr.poll() is None
            if hung:
                pr.kill()
                pr.wait()
            o = open(fp, errors='replace').read()
            if hung and stop: continue       # another process already failed
            if hung: o += '\nFAIL [hang] the harness hangs\n'
            outs.append((pr.returncode, o))
        cases = sum(int(m.group(1)) for _, o in outs for m in re.finditer(r'^CASES (\d+)', o, re.M))
        nont = sum(int(m.group(1)) for _, o in outs for m in re.finditer(r'^NONTRIVIAL (\d+)', o, re.M))
        samples = [m.group(1)[:300] for _, o in outs for m in re.finditer(r'^SAMPLE (.*)$', o, re.M)][:6]
        bad = [(rc, o) for rc, o in outs if rc != 0]
        if bad:
            # keep the shortest report
            rc, o = min(bad, key=lambda x: len(x[1]))
            fails = [x for x in re.findall(r'^FAIL (.*)$', o, re.M)]
            keys = [m for x in fails for m in re.findall(r'\[([\w-]+)\]', x)[:1]]
            return dict(status='fail', text=o[-6000:], cases=cases, nontrivial=nont, samples=samples, key=keys[0] if keys else 'crash', cmd=' '.join(cmd))
        return dict(status='ok', text='', cases=cases, nontrivial=nont, samples=samples, compile_s=round(tc, 1))
    except subprocess.TimeoutExpired:
        return dict(status='unavailable', text='timeout', cases=0, nontrivial=0, samples=[])
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- known findings
def known(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(C\d+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    verbose = '--verbose' in sys.argv or '-v' in sys.argv
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    t0 = time.time()
    load()
    spec = MODULES[pid]
    tasks = [(n, f) for n, f in spec['tasks'](TIER)] if callable(spec['tasks']) else spec['tasks']
    if only: tasks = [(n, f) for n, f in tasks if only in n]
    # parse the headers once, in the parent (the children inherit the result)
    try:
        for kw in spec.get('programs', []):
            ck = Ck('')
            ck.prog(**kw)
    except ExtractError: pass
    def failing(r): return r['error'] or [o for o in r['obls'] if o['status'] != 'proved'] or [c for c in r['covers'] if c[1] == 'VACUOUS']
    # the invariants that survived when the hints were written are tried first, all candidates if that does not do
    hp = os.path.join(HERE, 'hints', pid + '.json')
    hints = json.load(open(hp)) if os.path.exists(hp) and '--full' not in sys.argv and '--write-hints' not in sys.argv else {}
    seed0 = int(os.environ.get('DV_SEED', 1))
    res = run_tasks([(pid, n, f, verbose, seed0, set(hints[n]) if n in hints else None) for n, f in tasks], (250 if TIER == 'quick' else 1200) if hints else None)
    full = [n for n, r in enumerate(res) if r['task'] in hints and failing(r)]
    # an obligation failed: a failing input on the real code settles it before the long invariant search starts
    early = None
    if full and '--no-native' not in sys.argv and '--hints-only' not in sys.argv:
        early = native(spec, pid, 12 if TIER == 'quick' else 60, verbose)
        if early['status'] != 'fail': early = None
    if full and not early and '--hints-only' not in sys.argv:
        for n, r in zip(full, run_tasks([(pid, *tasks[n], verbose, seed0) for n in full], 450 if TIER == 'quick' else None)): res[n] = r
    if '--write-hints' in sys.argv:
        os.makedirs(os.path.dirname(hp), exist_ok=True)
        old = json.load(open(hp)) if os.path.exists(hp) and only else {}
        old.update({r['task']: r.get('alive', []) for r in res})
        json.dump(old, open(hp, 'w'), indent=0)
    if not [o for r in res for o in r['obls']] and not [r for r in res if r['error']]: res[0]['error'] = 'no obligation was generated'
    search = any(failing(r) for r in res)
    secs = spec.get('search_s', 40 if TIER == 'quick' else 200) if search else spec.get('replay_s', 5 if TIER == 'quick' else 60)
    nat = early or dict(status='unavailable', text='skipped', cases=0, nontrivial=0, samples=[]) if early or '--no-native' in sys.argv else native(spec, pid, secs, verbose)
    # no failing input: a task that is only undecided is tried again with other solver seeds (an attempt counts whole)
    retried = []
    left = (780 if TIER == 'quick' else 5000) - (time.time() - t0)
    again = [r for r in res if failing(r) and not (r['error'] and 'budget' not in r['error'] and 'out of time' not in r['error'])]
    if nat['status'] != 'fail' and again and left > 60 and '--once' not in sys.argv:
        jobs = [(pid, n, f, verbose, k) for k in (11, 23) for n, f in tasks if any(r['task'] == n for r in again)]
        second = run_tasks(jobs, left)
        for n, r in enumerate(res):
            for r2 in second:
                if r2['task'] == r['task'] and failing(res[n]) and not failing(r2):
                    res[n] = r2
                    retried.append(f"{r['task']} (solver seed {r2['attempt']})")
    obls = [o for r in res for o in r['obls']]
    bad = [o for o in obls if o['status'] != 'proved']
    errs = [(r['task'], r['error']) for r in res if r['error']]
    for r in res:
        errs += [(c[0], 'contradictory context: nothing was proved') for c in r['covers'] if c[1] == 'VACUOUS']
    kf = known(pid)
    listed = {k for k, _ in kf}
    violation = None
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    rp = os.path.join('replay', pid + '.txt')
    # failing obligations that a known finding accounts for
    new_bad = [o for o in bad if not any(k.startswith('obl:') and k[4:] in o['name'].replace(' ', '_') for k in listed)]
    if nat['status'] == 'fail' and nat.get('key') not in listed: violation = 'input'
    elif new_bad: violation = 'proof'
    txt = []
    for o in new_bad:
        txt.append(f"FAILED OBLIGATION ({o['status']}): {o['name']}\n  goal: {o['goal']}\n" + (f"  solver model: {o['model']}\n" if o['model'] else '  solver: no model (undecided within its limits)\n'))
    for t, e in errs: txt.append(f'OUT OF REACH: {t}: {e}\n')
    if nat['status'] == 'fail':
        txt.append('FAILING INPUT on the real code (native/%s, seed %d):\n%s\ncompile: %s\n' % (spec['native'], SEED, nat['text'], nat.get('cmd')))
    if violation: open(os.path.join(ROOT, rp), 'w').write(f'property {pid}\n' + '\n'.join(txt))
    wall = time.time() - t0
    by = {}
    for o in obls:
        if o['by']: by[o['by']] = by.get(o['by'], 0) + 1
    assumptions = sorted({a for r in res for a in r['assumptions']} | set(spec.get('assumptions', [])))
    trusted = ['clang 18 front end (AST dump)', 'dv/engine.py VC generator', 'z3 / cvc5'] + sorted({t for r in res for t in r['trusted']})
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=spec.get('level', 'proof'), coverage=dict(
        obligations=len(obls), discharged=len(obls) - len(bad),
        checker_cmd=f'python3-vt dv/check.py {pid}', trusted_base=trusted,
        solver_time_s=round(sum(o['secs'] for o in obls) + sum(r['gen_secs'] for r in res), 2),
        by_backend=by, inference_queries=sum(r['gen_q'] for r in res), loop_invariant_obligations=sum(r['inv'] for r in res),
        loop_visits=sum(r['loops'] for r in res),
        functions_under_contract=sorted({f for r in res for f in r['functions']}),
        functions_executed_inline=sorted({f for r in res for f in r['inlined']}),
        functions_replaced_by_contract=sorted({f for r in res for f in r['contracted']}),
        decided_on_retry=retried,
        vacuity_covers=len([1 for r in res for c in r['covers']]),
        tasks=[dict(task=r['task'], obligations=len(r['obls']), secs=round(r.get('secs', 0), 2), error=r['error']) for r in res],
        out_of_reach=[f'{t}: {e}' for t, e in errs],
        bounded_standin=dict(harness=spec.get('native'), status=nat['status'], evaluations=nat['cases'], nontrivial=nat['nontrivial'],
                             role='bounded: decides the parts listed under out_of_reach' if errs else 'replay only: executable contracts run against the real code, not counted as proof',
                             samples=nat['samples']),
    ), assumptions=assumptions, wall_s=round(wall, 2), violations=1 if violation else 0)
    if errs and spec.get('level', 'proof') == 'proof': ev['coverage']['note'] = 'some functions were out of the verifier reach on this tree: those parts are bounded, not proved'
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    if verbose or errs or bad:
        for t, e in errs: print(f'out of reach: {t}: {e}')
        for o in bad: print(f"not discharged [{o['status']}]: {o['name']}")
        if nat['status'] != 'ok': print('native:', nat['status'], nat['text'][-1500:])
    print(f"{pid}: {len(obls) - len(bad)}/{len(obls)} obligations discharged, {ev['coverage']['loop_invariant_obligations']} loop-invariant obligations, native {nat['status']} ({nat['cases']} cases), {wall:.1f}s")
    for k, w in kf: print(f'KNOWN-FINDING: property={pid} {w}')
    if violation == 'input':
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if violation == 'proof':
        print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
