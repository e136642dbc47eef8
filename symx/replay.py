"""Run one harness on concrete values against the real code with the real libraries.

usage: replay.py FILE.json            replay one recorded counterexample (exit 1 when it fails, 0 when it passes)
       replay.py --batch IN OUT       jobs of the symbolic runner; each job runs in its own process"""
import importlib.util
import json
import os
import random
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('QG_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(REPO, 'src'))
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')


def runOnce(har, case, values, rng):
    from symx.harness import ReplayContext, Discard
    cx = ReplayContext(values, rng)
    try:
        har.func(cx, **case)
    except Discard:
        return {'status': 'discard'}
    except Exception as err:    # pylint: disable=broad-except
        tb = traceback.extract_tb(err.__traceback__)
        where = f'{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}' if tb else ''
        return {'status': 'fail', 'failures': [f'raised {type(err).__name__}: {err} at {where}'],
                'values': cx.used, 'trace': traceback.format_exc()[-1500:]}
    return {'status': 'fail' if cx.failures else 'pass', 'failures': cx.failures[:5], 'values': cx.used,
            'checks': cx.checks}


def runJob(job):
    warnings.simplefilter('ignore')
    from checks import loadProperty
    har = loadProperty(job['property'])[job['harness']]
    case = job['case']
    res = runOnce(har, case, job['values'], None)
    if job.get('mode') == 'witness':
        if res['status'] == 'fail' and job.get('stable'):
            pass
        return res
    tried = [res['status']]
    if res['status'] == 'fail':
        return res
    for k in range(job.get('attempts', 0)):
        rng = random.Random(f"{job.get('seed', 1)}/{k}")
        keep = {n: v for n, v in job['values'].items()}
        res = purgeRun(har, case, keep, rng, job)
        tried.append(res['status'])
        if res['status'] == 'fail':
            return res
    return {'status': 'pass', 'tried': tried}


def purgeRun(har, case, values, rng, job):
    for name in [m for m in sys.modules if m == 'quanguru' or m.startswith('quanguru.')]:
        del sys.modules[name]
    return runOnce(har, case, values, rng)


def batch(inp, out):
    import numpy            # noqa: F401 pylint: disable=unused-import
    import scipy.sparse.linalg  # noqa: F401 pylint: disable=unused-import
    import scipy.linalg     # noqa: F401 pylint: disable=unused-import
    with open(inp, encoding='utf-8') as fil:
        jobs = json.load(fil)
    results = []
    for job in jobs:
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
                res = runJob(job)
            except BaseException as err:    # pylint: disable=broad-except
                res = {'status': 'error', 'failures': [repr(err), traceback.format_exc()[-1500:]]}
            with os.fdopen(wfd, 'w') as pipe:
                json.dump(res, pipe, default=str)
            os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd) as pipe:
            text = pipe.read()
        os.waitpid(pid, 0)
        results.append(json.loads(text) if text else {'status': 'error', 'failures': ['the replay died']})
    with open(out, 'w', encoding='utf-8') as fil:
        json.dump(results, fil)


def main():
    if sys.argv[1] == '--batch':
        batch(sys.argv[2], sys.argv[3])
        return
    with open(sys.argv[1], encoding='utf-8') as fil:
        job = json.load(fil)
    job['attempts'] = 0
    res = runJob(job)
    print(json.dumps(res, indent=1, default=str))
    sys.exit(1 if res['status'] == 'fail' else 0)


if __name__ == '__main__':
    main()
