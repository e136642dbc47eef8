"""Results: parallel runs give those of serial runs, averages are means, nothing leaks from earlier runs."""
import io
import pickle
import types
from symx.harness import harness

ASSUMPTIONS = ['tasks of a process pool are run on pickled copies of the simulation and of the class-wide tables, one '
               'after the other; scheduling by the operating system is outside']


def duplicate(cx, obj):
    """obj sent through pickle; numbers, functions and classes travel by reference"""
    table = []

    class Pickler(pickle.Pickler):
        def persistent_id(self, one):
            if isinstance(one, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType)) or \
                    type(one).__module__.startswith(('symx', 'z3')):
                table.append(one)
                return len(table)-1
            return None

    class Unpickler(pickle.Unpickler):
        def persistent_load(self, pid):
            return table[pid]
    buf = io.BytesIO()
    Pickler(buf, protocol=pickle.HIGHEST_PROTOCOL).dump(obj)
    return Unpickler(io.BytesIO(buf.getvalue())).load()


def fakePool(cx, last):
    """stands in for multiprocessing: each task works on its own pickled copy of everything"""
    results = cx.load('classes.QRes').qResults

    class Pool:
        def __init__(self, processes=None):
            self._processes = processes if processes is not None else 2

        def map(self, func, tasks, chunksize=None):
            tasks = list(tasks)
            out = {}
            for ind in (reversed(range(len(tasks))) if last else range(len(tasks))):
                saved = results._allResults
                job, task = duplicate(cx, (func, tasks[ind]))
                results._allResults = duplicate(cx, saved)
                try:
                    out[ind] = duplicate(cx, job(task))
                finally:
                    results._allResults = saved
            return [out[k] for k in range(len(tasks))]

        def close(self):
            pass

        def join(self):
            pass
    return types.SimpleNamespace(Pool=Pool, cpu_count=lambda: 4, set_start_method=lambda *a, **k: None)


def build(cx, kind, par):
    """a simulation, its objects that hold results and the keys of the states"""
    qg, ops = cx.qg, cx.ops
    sys = qg.Qubit(frequency=par['f'])
    sys.initialState = par['psi']
    holders = [sys]
    if kind == 'own':
        sim = sys.simulation
    else:
        sim = qg.Simulation(subSys=sys)
    keys = [sys.name + 'Results']
    if kind == 'protocol':
        gate = qg.SpinRotation(system=sys, angle=par['angle'], rotationAxis='y')
        pro = qg.qProtocol(system=sys, steps=[gate, qg.freeEvolution(system=sys)])
        sim.addSubSys(sys, pro)
        holders.append(pro)
        keys.append(pro.name + 'Results')
        sim.Sweep.createSweep(system=gate, sweepKey='angle', sweepList=par['vals'])
    elif kind == 'term':
        term = sys.createTerm(operator=ops.Jx, frequency=par['g'])
        term.timeDependency = lambda term, time: setattr(term, 'frequency', par['amp']*time)
        sim.Sweep.createSweep(system=sys, sweepKey='frequency', sweepList=par['vals'])
    elif kind == 'dependency':
        sim.Sweep.createSweep(system=sys, sweepKey='initialState', sweepList=par['states'])
        sim.timeDependency.createSweep(system=sys, sweepKey='frequency', sweepList=par['vals'])
    else:
        sim.Sweep.createSweep(system=sys, sweepKey='frequency', sweepList=par['vals'])
    if kind in ('own', 'two'):
        sim.Sweep.createSweep(system=sim, sweepKey='stepSize', sweepList=par['sizes'], combinatorial=kind == 'two')
    holders.append(sim)
    sim.stepSize = par['dt']
    if kind in ('own', 'two'):
        sim.totalTime = par['dt']
    else:
        sim.stepCount = 2
    sim.delStates = par['delStates']
    return sys, sim, holders, keys


def observe(holders, seen='all'):
    if seen == 'calculated':    # nothing but calculated values: these are told apart by their order
        for pos, obj in enumerate(holders):
            size = 'frequency' if pos == 0 else 'stepSize'
            obj.preCompute = lambda obj, size=size: setattr(obj.qRes, 'calculated', ['before', getattr(obj, size)])
            obj.postCompute = lambda obj: setattr(obj.qRes, 'calculated', ['after', obj.qRes.name is not None])
        return
    if seen == 'one':           # one of the objects only
        holders[-2].compute = lambda obj, state: setattr(obj.qRes, 'singleResult', ['first', state[0, 0]])
        return
    for pos, obj in enumerate(holders):
        if pos and pos == len(holders)-1:
            def compute(obj, states):
                for k, one in enumerate(states):
                    obj.qRes.singleResult = [f'first{k}', one[0, 0]]
        else:
            def compute(obj, state):
                obj.qRes.singleResult = ['first', state[0, 0]]
                obj.qRes.resAverage = ['mean', state[1, 0]]
        obj.compute = compute
    sim = holders[-1]
    sim.preCompute = lambda obj: setattr(obj.qRes, 'calculated', ['before', obj.stepSize])
    sim.postCompute = lambda obj: setattr(obj.qRes, 'singleResult', ['end', obj.stepSize])


def same(cx, one, two, label):
    if isinstance(one, (list, tuple)) or isinstance(two, (list, tuple)):
        cx.equal(len(one), len(two), label + ': length')
        for a, b in zip(one, two):
            same(cx, a, b, label)
    else:
        cx.equal(one, two, label)


def sameDict(cx, one, two, label, rename=()):
    names = dict(rename)
    one, two = [{k: v for k, v in d.items() if not isinstance(v, list) or len(v)} for d in (one, two)]
    cx.check({str(names.get(k, k)) for k in one} == {str(k) for k in two}, label + ': keys')
    for key, val in one.items():
        same(cx, val, two[names.get(key, key)], label)


def params(cx, kind):
    num = 2
    par = dict(f=cx.real('f', nonzero=True), psi=cx.ket('psi', 2), dt=cx.real('dt', positive=True),
               vals=[cx.real(f'v{j}', nonzero=True) for j in range(num)], delStates=cx.bool('delStates'))
    if kind == 'protocol':
        par['angle'] = cx.real('angle', nonzero=True)
    if kind == 'term':
        par['g'], par['amp'] = cx.real('g', nonzero=True), cx.real('amp', nonzero=True)
    if kind == 'dependency':
        par['states'] = [cx.ket(f'phi{j}', 2) for j in range(2)]
    if kind in ('own', 'two'):
        par['sizes'] = [par['dt']/(j+1) for j in range(num)]
    return par


KINDS = ['own', 'two', 'protocol', 'term', 'dependency']


@harness('C15', reload=True, quick=[{'kind': k} for k in KINDS] + [
    {'kind': k, 'seen': s} for k in ('two', 'protocol') for s in ('calculated', 'one')],
         bounds='one or two sweeps of two values, two steps; tasks in either order; results, averages, states and '
                'calculated values of every object, of one or only calculated values; any parameters')
def parallel(cx, kind, seen='all'):
    par = params(cx, kind)
    mod = cx.load('classes.QSim')
    saved = mod.multiprocessing
    one = build(cx, kind, par)
    observe(one[2], seen)
    one[1].run()
    want = [(dict(h.qRes.resultsDict), dict(h.qRes.states), dict(h.qRes.calculated)) for h in one[2]]
    two = build(cx, kind, par)
    observe(two[2], seen)
    mod.multiprocessing = fakePool(cx, cx.bool('last'))
    try:
        how = cx.choice('how', ['pool', 'count', 'remembered'])
        if how == 'pool':
            two[1].run(p=True)
        elif how == 'count':
            two[1].run(p=True, coreCount=3)
        else:
            two[1].run(p=mod.multiprocessing.Pool(2))
        if how == 'remembered':
            two[1].run()
    finally:
        mod.multiprocessing = saved
        mod._poolMemory.coreCount = None
    names = list(zip(one[3], two[3]))
    for (res, sts, calc), obj in zip(want, two[2]):
        sameDict(cx, res, dict(obj.qRes.resultsDict), 'results of a parallel run are those of the serial run')
        sameDict(cx, sts, dict(obj.qRes.states), 'states of a parallel run are those of the serial run', names)
        sameDict(cx, calc, dict(obj.qRes.calculated), 'calculated values of a parallel run are those of the serial run')


@harness('C15', reload=True, quick=[{'sweeps': n} for n in (0, 1)],
         bounds='two or three values in a run, two sweep points; any values')
def averages(cx, sweeps):
    qg = cx.qg
    steps = cx.pick(cx.int('steps', 1, 3))
    sys = qg.Qubit(frequency=cx.real('f', nonzero=True))
    sys.initialState = 0
    sim = sys.simulation
    sim.stepSize = 1
    sim.stepCount = steps
    vals = [[cx.real(f'v{p}_{k}') for k in range(steps+1)] for p in range(1 + sweeps)]
    if sweeps:
        sim.Sweep.createSweep(system=sys, sweepKey='frequency', sweepList=[1, 2])
    feed = [v for line in vals for v in line]
    who = cx.choice('who', [sys, sim])

    def compute(obj, state):
        obj.qRes.resAverage = ['mean', feed[0]]
        obj.qRes.resAverage = ['other', 2*feed.pop(0)]
    who.compute = compute
    runs = 2 if cx.bool('again') else 1
    for _ in range(runs):
        feed[:] = [v for line in vals for v in line]
        sim.run()
        for key, fac in (('mean', 1), ('other', 2)):
            got = who.resultsDict[key]
            got = got if sweeps else [got]
            for res, line in zip(got, vals):
                cx.equal(res, fac*sum(line)/len(line), 'an averaged result is the mean of its values')


@harness('C15', reload=True, quick=[{'first': f} for f in ('keys', 'protocol', 'steps', 'pool')],
         bounds='two runs of one simulation, the second with fewer results, protocols, steps or sweep points')
def afresh(cx, first):
    qg = cx.qg
    f, dt = cx.real('f', nonzero=True), cx.real('dt', positive=True)
    sys = qg.Qubit(frequency=f)
    psi = cx.ket('psi', 2)
    sys.initialState = psi
    sim = qg.Simulation(subSys=sys)
    sim.stepSize = dt
    sim.stepCount = 3 if first == 'steps' else 1
    prop = cx.expm(-1j*dt*f*cx.ops.Jz(2, isDim=True))
    labels = ['a', 'b']
    sim.compute = lambda obj, states: [setattr(obj.qRes, 'singleResult', [key, states[0][0, 0]]) for key in labels]
    if first == 'protocol':
        pro = qg.qProtocol(system=sys, steps=[qg.SpinRotation(system=sys, angle=f, rotationAxis='y')])
        sim.addSubSys(sys, pro)
    if first == 'pool':
        mod = cx.load('classes.QSim')
        saved = mod.multiprocessing
        mod.multiprocessing = fakePool(cx, False)
        swp = sim.Sweep.createSweep(system=sys, sweepKey='frequency', sweepList=[f, cx.real('g', nonzero=True)])
        try:
            sim.run(p=True)
        finally:
            mod.multiprocessing = saved
            mod._poolMemory.coreCount = None
        swp.sweepList = [f]
    else:
        sim.run()
    if first == 'keys':
        labels.remove('b')
    elif first == 'protocol':
        sim.removeProtocol(pro)
    elif first == 'steps':
        sim.totalTime = dt
        sim.stepCount = 1
    sim.run(p=False)
    keep = first == 'keys'
    cx.check(set(sim.resultsDict) == ({'a'} if keep else {'a', 'b'}), 'only results of the last run are kept')
    cx.check({str(k) for k, v in sim.states.items() if len(v)} == {sys.name + 'Results'},
             'only states of the last run are kept')
    res, sts = sim.resultsDict['a'], sim.states[sys.name + 'Results']
    if first == 'pool':
        cx.equal(len(res), 1, 'only results of the last run are kept')
        res, sts = res[0], sts[0]
    cx.equal(len(sts), 2, 'only states of the last run are kept')
    cx.equal(len(res), 2, 'only results of the last run are kept')
    for k, state in enumerate((psi, prop @ psi)):
        cx.equal(sts[k], state, 'states of the last run')
        cx.equal(res[k], state[0, 0], 'results of the last run')
    own = sys.states[sys.name + 'Results']
    own = own[0] if first == 'pool' else own
    for k, state in enumerate((psi, prop @ psi)):
        cx.equal(own[k], state, 'a system finds its own states')


@harness('C15', quick=[{'dims': d} for d in ((1,), (3,), (2, 3), (3, 2), (2, 1, 2), (2, 2, 2))],
         thorough=[{'dims': d} for d in ((9,), (4, 5), (3, 1, 4), (2, 3, 4), (2, 2, 2, 2))],
         bounds='up to eight (thorough 24) points of up to four sweeps')
def shape(cx, dims):
    qres = cx.load('classes.QRes').qResults
    total = 1
    for dim in dims:
        total *= dim
    vals = [cx.real(f'v{k}') for k in range(total)]
    form = cx.choice('form', ['value', 'single', 'pair'])
    lines = {'value': vals, 'single': [[v] for v in vals], 'pair': [[v, 2*v] for v in vals]}[form]
    got, count = qres._reShape(list(lines), list(dims))
    cx.equal(count, total, 'every result is filed')
    for num in range(total):
        one, rest, pos = got, num, []
        for dim in reversed(dims):
            pos.insert(0, rest % dim)
            rest //= dim
        for p, dim in zip(pos, dims):
            cx.equal(len(one), dim, 'results have the shape of the sweeps')
            one = one[p]
        if form == 'pair':
            cx.equal(one[0], vals[num], 'results are filed under their indices')
            cx.equal(one[1], 2*vals[num], 'results are filed under their indices')
        else:
            cx.equal(one, vals[num], 'results are filed under their indices')


@harness('C15', reload=True, quick=[{'order': o} for o in ('same', 'other', 'both', 'afresh')],
         bounds='two simulations, three runs in any of four orders, the later ones keeping results or not; one or two results, '
                'with or without a sweep of two values, stored and calculated values')
def kept(cx, order):
    qg = cx.qg
    dt = cx.real('dt', positive=True)
    psi = cx.ket('psi', 2)
    swept = cx.bool('swept')
    want, objs, now = {}, {}, {}

    def follow(sys, name):
        sys.compute = lambda obj, state: setattr(obj.qRes, 'singleResult', ['f', obj.frequency])
    for name in 'ab':
        sys = qg.Qubit(frequency=cx.real('f' + name, nonzero=True))
        sys.initialState = psi
        sim = sys.simulation
        sim.stepSize = dt
        sim.stepCount = 1
        follow(sys, name)
        now[name] = [sys.frequency]
        if swept and name == 'a':
            now[name] = [cx.real(f'v{k}', nonzero=True) for k in range(2)]
            sim.Sweep.createSweep(system=sys, sweepKey='frequency', sweepList=now[name])
        objs[name], want[name] = sys, []
    marks = [cx.real('mark0'), cx.real('mark1')]

    def run(name, keep):
        objs[name].runSimulation() if keep is None else objs[name].simulation.run(resetRes=not keep)
        if not keep:
            for one in want:
                want[one] = []
        want[name] = want[name] + now[name]
    run('a', None)
    objs['a'].qRes.calculated = ('mark', marks[0])
    second = {'same': 'a', 'other': 'b', 'both': 'b', 'afresh': 'b'}[order]
    keep = order != 'afresh' or cx.bool('keep')
    if cx.bool('change') and not swept:
        objs['a'].frequency = cx.real('g', nonzero=True)
        now['a'] = [objs['a'].frequency]
    run(second, keep)
    if order == 'both':
        run('a', True)
    elif order == 'afresh':
        run('a', False)
    for name, sys in objs.items():
        res, sts = sys.resultsDict['f'], sys.qRes.states[sys.name + 'Results']
        if not want[name]:
            cx.check(len(res) == 0 and len(sts) == 0, 'other results are not kept')
            continue
        nested = swept and name == 'a'
        cx.equal(len(res), len(want[name])*(1 if nested else 2), 'results of earlier runs come before those of later ones')
        cx.equal(len(sts), len(want[name])*(1 if nested else 2), 'states of earlier runs come before those of later ones')
        for pos, freq in enumerate(want[name]):
            one, hist = (res[pos], sts[pos]) if nested else (res[2*pos:2*pos+2], sts[2*pos:2*pos+2])
            cx.equal(one, [freq, freq], 'results are those of their run')
            for got, exp in zip(hist, (psi, cx.expm(-1j*dt*freq*cx.ops.Jz(2, isDim=True)) @ psi)):
                cx.equal(got, exp, 'states are those of their run')
    cal = objs['a'].qRes.calculated['mark']
    cx.equal(len(cal), 0 if order == 'afresh' else 1, 'calculated values are kept or not')
    if order != 'afresh':
        cx.equal(cal[0], marks[0], 'calculated values are kept')
