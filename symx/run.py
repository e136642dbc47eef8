"""Decide one property: run its harnesses symbolically, let the solver decide every obligation on every path, replay
counterexamples and path witnesses on the real code, write the evidence file.

usage: run.py PROPERTY [--tier quick|thorough] [--harness NAME] [-v]"""
import argparse
import json
import multiprocessing
import os
import random
import re
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != HERE]
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
PY = sys.executable

WITNESSES = {'quick': 6, 'thorough': 24}


class Record:
    """what one harness case collected"""

    def __init__(self, seed, verbose=False):
        self.obligations = 0
        self.discharged = 0
        self.entries = 0
        self.labels = {}
        self.candidates = []
        self.inconclusive = []
        self.witnesses = []
        self.samples = []
        self.seed = seed
        self.infeasible = 0
        self.failed = {}

    def guess(self, path, neg):
        """a counterexample with every real input set to a drawn value, or None"""
        import z3
        from symx import core
        from symx.poly import SPACE
        rng = random.Random(self.obligations)
        for _ in range(3):
            fix = []
            for name, info in path.inputs.items():
                if info['kind'] == 'real':
                    low = info['lo'] if info['lo'] is not None else (0 if info['positive'] else -3)
                    high = info['hi'] if info['hi'] is not None else max(low, 0) + 3
                    val = low + (high-low)*rng.randint(1, 15)/16
                    fix.append(SPACE.keys[('input', name)].z == z3.RealVal(str(val)))
            res, model = core.solve([neg] + fix + list(path.cons), timeout=2000, model=True)
            if res == 'sat':
                return {name: _value(model, SPACE.keys[('input', name)], info) for name, info in path.inputs.items()}
        return None

    def obligation(self, path, label, neg, entries=1):
        """neg: the negated assertion"""
        import z3
        from symx import core
        self.obligations += 1
        self.entries += entries
        self.labels[label] = self.labels.get(label, 0) + 1
        path.touched = True
        if self.failed.get(label, 0) >= 4:
            return      # reported already; it stays undischarged
        if z3.is_false(z3.simplify(neg)):
            self.discharged += 1    # both sides are the same term
            return
        res, model = core.solve([neg], path.cons, timeout=2000, model=True)
        point = None
        if res == 'unknown':
            # the solver searches long for a counterexample that almost any point is
            point = self.guess(path, neg)
            if point is None:
                res, model = core.solve([neg], path.cons, model=True)
        if res == 'unsat':
            self.discharged += 1
            return
        if point is not None:
            self.failed[label] = self.failed.get(label, 0) + 1
            self.candidates.append({'label': label, 'values': point})
            return
        if res == 'unknown':
            self.inconclusive.append(f'{label}: the solver did not decide')
            return
        self.failed[label] = self.failed.get(label, 0) + 1
        self.candidates.append({'label': label, 'values': self.values(path, neg, model)})

    def values(self, path, neg, model):
        """input values of a counterexample, preferring small ones"""
        import z3
        from symx import core
        from symx.poly import SPACE
        box = []
        for name, info in path.inputs.items():
            var = SPACE.keys[('input', name)]
            if info['kind'] == 'real':
                box.append(z3.And(var.z >= -8, var.z <= 8))
        goal = ([neg] if neg is not None else []) + list(path.cons)
        for extra in ([box] if box else []) + [[]]:
            res, full = core.solve(goal + extra, timeout=3000, model=True)
            if res == 'sat':
                model = full
                break
        return {name: _value(model, SPACE.keys[('input', name)], info) for name, info in path.inputs.items()}


def _value(model, var, info):
    import z3
    val = model.eval(var.z, model_completion=True) if model is not None else None
    if val is None:
        return None
    if z3.is_int_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        return float(val.as_fraction())
    if z3.is_algebraic_value(val):
        return float(val.approx(20).as_fraction())
    return 0 if info['kind'] == 'int' else 0.0


def watchFunctions(seen, src):
    mon = sys.monitoring
    tool = 4

    def start(code, offset):
        name = code.co_filename
        if name.startswith(src):
            mod = name[len(src)+1:-3].replace('/', '.')
            if not code.co_name.startswith('<'):
                seen.add(f'{mod}.{code.co_qualname}')
        return mon.DISABLE
    mon.use_tool_id(tool, 'symx')
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def runCase(task):
    """one harness case, in its own process"""
    prop, name, case, tier, seed, deadline = task
    start = time.time()
    out = {'harness': name, 'case': case}
    seen = set()
    rec = Record(seed)
    explorer = None
    try:
        from symx import core, loader, poly, facade, harness as H
        loader.install()
        watchFunctions(seen, loader.SRC)
        from checks import loadProperty
        har = loadProperty(prop)[name]
        poly.resetSpace()
        explorer = core.Explorer(maxPaths=20000, deadline=deadline, found=FOUND)
        rng = random.Random(f'{seed}/{name}')
        kept = []
        count = [0]

        def onPath(path):
            if har.reload:
                for mod in [m for m in sys.modules if m == 'quanguru' or m.startswith('quanguru.')]:
                    del sys.modules[mod]
            path.touched = False
            err = None
            try:
                cx = H.SymContext(path, rec)
                har.func(cx, **case)
            except core.PathDone:
                pass
            except Exception as exc:    # pylint: disable=broad-except
                err = exc
            if path.poison is not None:
                raise path.poison
            if err is not None:
                tb = traceback.extract_tb(err.__traceback__)
                where = f'{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}'
                res, model = core.solve(path.cons, model=True)
                if res == 'unsat':
                    rec.infeasible += 1
                else:
                    rec.obligations += 1
                    rec.candidates.append({'label': f'no exception (raised {type(err).__name__}: {err} at {where})',
                                           'values': rec.values(path, None, model),
                                           'trace': ''.join(traceback.format_exception(err))[-3000:]})
            if rec.candidates and FOUND is not None and not FOUND.value:
                FOUND.value = time.time()
            if path.touched:
                count[0] += 1
                limit = WITNESSES[tier]
                if len(kept) < limit:
                    kept.append(None)
                    slot = len(kept)-1
                else:
                    slot = rng.randrange(count[0])
                    if slot >= limit:
                        slot = None
                if slot is not None:
                    kept[slot] = rec.values(path, None, None)
            if FIRST and rec.candidates:
                path.todo.clear()

        explorer.run(onPath)
        rec.witnesses = [w for w in kept if w is not None]
        if not count[0]:
            rec.inconclusive.append('no feasible path reaches an assertion (vacuous)')
        st = core.STATS
        out.update(queries=st.queries, solver=st.solver, forks=st.forks, unsat=st.unsat, sat=st.sat,
                   unknown=st.unknown)
    except BaseException as exc:    # pylint: disable=broad-except
        rec.inconclusive.append(f'{type(exc).__name__}: {exc}\n' + traceback.format_exc()[-2500:])
        try:
            from symx import core
            st = core.STATS
            out.update(queries=st.queries, solver=st.solver, forks=st.forks, unsat=st.unsat, sat=st.sat,
                       unknown=st.unknown)
        except ImportError:
            out.update(queries=0, solver=0, forks=0, unsat=0, sat=0, unknown=0)
    out.update(paths=explorer.paths if explorer else 0, obligations=rec.obligations, discharged=rec.discharged,
               entries=rec.entries, labels=rec.labels, candidates=rec.candidates, inconclusive=rec.inconclusive,
               witnesses=rec.witnesses, functions=sorted(seen), wall=time.time()-start)
    return out


FOUND = None    # time of the first counterexample of the run
FIRST = bool(os.environ.get('SYMX_FIRST'))   # development: stop at the first counterexample


def child(task, conn):
    try:
        res = runCase(task)
    except BaseException as exc:    # pylint: disable=broad-except
        res = {'harness': task[1], 'case': task[2], 'fatal': repr(exc)}
    conn.send(res)
    conn.close()
    os._exit(0)


def runAll(tasks, workers, deadline):
    ctx = multiprocessing.get_context('fork')
    todo = list(tasks)
    live = []
    results = []
    while todo or live:
        while todo and len(live) < workers:
            task = todo.pop(0)
            rcv, snd = ctx.Pipe(False)
            proc = ctx.Process(target=child, args=(task, snd))
            proc.start()
            snd.close()
            live.append((proc, rcv, task))
        from multiprocessing.connection import wait
        ready = wait([r for _, r, _ in live], timeout=1.0)
        still = []
        for proc, rcv, task in live:
            if rcv in ready:
                try:
                    results.append(rcv.recv())
                    if FIRST and results[-1].get('candidates'):
                        todo.clear()
                        deadline = 0
                except EOFError:
                    results.append({'harness': task[1], 'case': task[2], 'fatal': 'the worker died'})
                proc.join()
            elif time.time() > deadline + 30 or (FOUND is not None and FOUND.value
                                                 and time.time() > FOUND.value + 180):
                proc.kill()
                proc.join()
                results.append({'harness': task[1], 'case': task[2], 'fatal': 'time budget used up'})
            else:
                still.append((proc, rcv, task))
        live = still
    return results


def replayBatch(jobs, workers):
    if not jobs:
        return []
    chunks = [jobs[i::workers] for i in range(min(workers, len(jobs)))]
    procs = []
    tmp = tempfile.mkdtemp(prefix='symx-replay-')
    env = dict(os.environ, PYTHONHASHSEED='0')
    for i, chunk in enumerate(chunks):
        inp, outp = os.path.join(tmp, f'in{i}.json'), os.path.join(tmp, f'out{i}.json')
        with open(inp, 'w', encoding='utf-8') as fil:
            json.dump(chunk, fil, default=str)
        procs.append((subprocess.Popen([PY, os.path.join(HERE, 'replay.py'), '--batch', inp, outp], env=env,
                                       cwd=tmp), outp))
    results = [None]*len(jobs)
    for i, (proc, outp) in enumerate(procs):
        proc.wait()
        try:
            with open(outp, encoding='utf-8') as fil:
                part = json.load(fil)
        except (OSError, ValueError):
            part = [{'status': 'error', 'failures': ['replay process failed']}]*len(chunks[i])
        for k, res in enumerate(part):
            results[i + k*len(chunks)] = res
    subprocess.run(['rm', '-rf', tmp], check=False)
    return results


def knownFindings(prop):
    path = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fil:
            for line in fil:
                mat = re.match(r'finding: property=(\S+) harness=(\S+) label=/(.*?)/ case=/(.*?)/ :: (.*)', line.strip())
                if mat and mat.group(1) == prop:
                    out.append(mat.groups())
    return out


def main():
    par = argparse.ArgumentParser()
    par.add_argument('property')
    par.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    par.add_argument('--harness')
    par.add_argument('-v', action='store_true')
    par.add_argument('--workers', type=int, default=8)
    par.add_argument('--budget', type=float)
    args = par.parse_args()
    prop, tier = args.property, args.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    start = time.time()
    budget = args.budget or (600 if tier == 'quick' else 7200)
    deadline = start + budget
    from checks import loadProperty
    hars = loadProperty(prop)
    module = sys.modules[f'checks.{prop}']
    tasks = []
    for name, har in hars.items():
        if args.harness and name != args.harness:
            continue
        for case in har.cases[tier]:
            tasks.append((prop, name, case, tier, seed, deadline))
    if not knownFindings(prop):
        global FOUND    # pylint: disable=global-statement
        FOUND = multiprocessing.get_context('fork').Value('d', 0.0, lock=False)
    results = runAll(tasks, args.workers, deadline)

    inconclusive = []
    groups = {}
    jobs = []
    for res in results:
        if 'fatal' in res:
            inconclusive.append(f"{res['harness']} {res['case']}: {res['fatal']}")
            continue
        for msg in res['inconclusive']:
            inconclusive.append(f"{res['harness']} {res['case']}: {msg}")
        for cand in res['candidates']:
            key = (res['harness'], json.dumps(res['case'], sort_keys=True, default=str),
                   re.sub(r'\d+', '#', cand['label']))
            groups.setdefault(key, []).append((res, cand))
        for wit in res['witnesses']:
            base = dict(property=prop, harness=res['harness'], case=res['case'], values=wit, seed=seed)
            jobs.append(dict(base, mode='witness', kind='model'))
            jobs.append(dict(base, mode='witness', kind='random', attempts=0,
                             values={n: v for n, v in wit.items() if not isinstance(v, float)}))
    candJobs = []
    for key, members in groups.items():
        for res, cand in members[:5]:
            candJobs.append(dict(property=prop, harness=res['harness'], case=res['case'], values=cand['values'],
                                 seed=seed, mode='candidate', label=cand['label'], trace=cand.get('trace'),
                                 attempts=hars[res['harness']].attempts, key=key))
    replays = replayBatch(candJobs + jobs, args.workers)
    candRes, witRes = replays[:len(candJobs)], replays[len(candJobs):]

    violations = []
    confirmed = set()
    for job, res in zip(candJobs, candRes):
        if res['status'] == 'fail':
            if job['key'] not in confirmed:
                confirmed.add(job['key'])
                violations.append((job, res))
    for key in groups:
        if key not in confirmed:
            job = next(j for j in candJobs if j['key'] == key)
            res = candRes[candJobs.index(job)]
            inconclusive.append(f'{key[0]} {key[1]}: counterexample to "{job["label"]}" does not reproduce: '
                                f'{job["values"]} -> {res}\n{job.get("trace") or ""}')
    validated = 0
    for job, res in zip(jobs, witRes):
        if res['status'] == 'pass':
            validated += 1
        elif res['status'] == 'fail':
            key = (job['harness'], json.dumps(job['case'], sort_keys=True, default=str), 'witness')
            if key not in confirmed and not any(k[:2] == key[:2] for k in confirmed):
                confirmed.add(key)
                violations.append((dict(job, label='path witness: ' + res['failures'][0]), res))
        elif res['status'] == 'error':
            inconclusive.append(f"{job['harness']}: witness replay error {res['failures']}")

    # ---- report
    known = knownFindings(prop)
    repDir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(repDir, exist_ok=True)
    for old in os.listdir(repDir):
        if old.startswith(prop + '-'):
            os.unlink(os.path.join(repDir, old))
    reported = 0
    printedKnown = set()
    for num, (job, res) in enumerate(violations):
        caseText = json.dumps(job['case'], sort_keys=True, default=str)
        hit = next((k for k in known if k[1] == job['harness'] and re.search(k[2], res['failures'][0])
                    and re.search(k[3], caseText)), None)
        if hit:
            if hit not in printedKnown:
                printedKnown.add(hit)
                print(f'KNOWN-FINDING: property={prop} {hit[4]}')
            continue
        path = os.path.join(repDir, f'{prop}-{num}.json')
        with open(path, 'w', encoding='utf-8') as fil:
            json.dump(dict(property=prop, harness=job['harness'], case=job['case'], values=res.get('values',
                      job['values']), label=job['label'], failures=res['failures'],
                      how=f'{PY} {os.path.join(HERE, "replay.py")} {path}'), fil, indent=1, default=str)
        reported += 1
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  harness {job["harness"]} {caseText}: {job["label"]}')
        print(f'  on the real code: {res["failures"][:2]}')
        print(f'  inputs: {res.get("values", job["values"])}')
    good = [r for r in results if 'fatal' not in r]
    funcs = sorted({f for r in good for f in r['functions']})
    wall = time.time()-start
    obligations = sum(r['obligations'] for r in good)
    discharged = sum(r['discharged'] for r in good)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r['paths'] for r in good),
            'transitions': sum(r['forks'] for r in good),
            'traces_validated_against_impl': validated,
            'samples': [dict(harness=r['harness'], case=r['case'], witness=r['witnesses'][0],
                             assertions=sorted(r['labels'])[:12]) for r in good if r['witnesses']][:12],
            'exhaustive': not inconclusive,
            'explanation': 'states: feasible paths of the real code, each executed symbolically to its end; '
                           'transitions: branch points decided by the solver; obligations: assertions whose negation '
                           'the solver was asked for; traces_validated_against_impl: path witnesses (solver models and '
                           'seeded draws with the same discrete inputs) on which the real code was run and agreed',
            'obligations': obligations, 'discharged': discharged,
            'scalar_equations': sum(r['entries'] for r in good),
            'solver_queries': sum(r['queries'] for r in good),
            'solver_unsat': sum(r['unsat'] for r in good), 'solver_sat': sum(r['sat'] for r in good),
            'solver_unknown': sum(r['unknown'] for r in good),
            'solver_seconds': round(sum(r['solver'] for r in good), 2),
            'harnesses': [dict(harness=r['harness'], case=r['case'], paths=r['paths'], obligations=r['obligations'],
                               discharged=r['discharged'], queries=r['queries'], wall_s=round(r['wall'], 1))
                          for r in good],
            'functions_encoded': funcs,
            'bounds': {h.name: h.bounds for h in hars.values()},
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []) + COMMON,
        'wall_s': round(wall, 2), 'violations': reported,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as fil:
        json.dump(evidence, fil, indent=1, default=str)
    if args.v or inconclusive:
        for r in good:
            print(f"  {r['harness']} {r['case']}: {r['paths']} paths, {r['discharged']}/{r['obligations']} obligations,"
                  f" {r['queries']} queries, solver {r['solver']:.1f}s, wall {r['wall']:.1f}s", file=sys.stderr)
    print(f'{prop} {tier}: {len(good)} harness cases, {evidence["coverage"]["states"]} paths, {discharged}/{obligations}'
          f' obligations discharged, {evidence["coverage"]["solver_queries"]} solver queries, {validated} traces '
          f'validated, {wall:.1f}s')
    for msg in inconclusive[:20]:
        print('INCONCLUSIVE ' + msg, file=sys.stderr)
    if reported:
        sys.exit(1)
    if inconclusive or discharged < obligations and not known:
        sys.exit(2)
    sys.exit(0)


COMMON = [
    'Python floats and complex numbers are modelled as exact reals and pairs of reals; decimal literals are read as '
    'the fractions they spell; rounding to nine or more decimals is modelled as exact.',
    'numpy and scipy are replaced by their documented behaviour on exact entries (symx/facade.py, symx/arrays.py); '
    'the matrix exponential of a block that is not 1x1 is an uninterpreted function of that block.',
    'The solver is z3; a query it does not decide makes the check inconclusive (exit 2), never a pass.',
]

if __name__ == '__main__':
    main()
