"""Time parameters: total time, step size, step count and samples determine each other and are followed."""
from symx.harness import harness

ASSUMPTIONS = ['times are free positive reals and step counts free positive integers; the step count of a given total '
               'time and step size is floor(totalTime/stepSize)+1, as the existing tests pin it']


def target(cx, kind):
    """the object whose attributes are set and the simulation they belong to"""
    qg = cx.qg
    if kind == 'simulation':
        sim = qg.Simulation()
        return sim, sim
    sys = qg.Qubit(frequency=1)
    if kind == 'system':
        return sys, sys.simulation
    pro = qg.freeEvolution(system=sys)
    return pro, pro.simulation


NAMES = {'totalTime': 'simTotalTime', 'stepSize': 'simStepSize', 'stepCount': 'simStepCount'}
FIRST = [{'kind': k, 'first': f, 'ops': 3} for k in ('simulation', 'system') for f in NAMES]
DEEP = [{'kind': k, 'first': f, 'ops': 4} for k in ('simulation', 'system', 'protocol') for f in NAMES]


@harness('C16', reload=True, quick=FIRST, thorough=DEEP,
         bounds='three (thorough four) settings of any of total time, step size and step count in any order, read or '
                'not in between, on a simulation or through a system; any values')
def relation(cx, kind, first, ops):
    obj, sim = target(cx, kind)
    tot = dt = num = None
    direct = cx.bool('direct') if kind != 'simulation' else True
    for step in range(ops):
        what = first if not step else cx.choice(f'op{step}', sorted(NAMES))
        val = cx.int(f'v{step}', 1, 10**6) if what == 'stepCount' else cx.real(f'v{step}', positive=True)
        setattr(obj, what if direct else NAMES[what], val)
        if what == 'totalTime':
            tot = val
            if dt is not None:
                num = 'floor'
            elif num is not None:
                dt = tot/num
        elif what == 'stepSize':
            dt = val
            if tot is not None:
                num = 'floor'
        else:
            num = val
            if tot is not None:
                dt = tot/num
        known = sum(v is not None for v in (tot, dt, num))
        if known >= 2 and (step == ops-1 or cx.bool(f'read{step}')):
            count = sim.stepCount
            if tot is None:
                tot = num*dt
            if num is None or isinstance(num, str):
                num = count
                cx.equal(count, tot//dt + 1, 'the steps cover the total time')
            else:
                cx.equal(count, num, 'a given step count is the number of steps')
            cx.equal(sim.totalTime, tot, 'total time')
            cx.equal(sim.stepSize, dt, 'step size')
            if kind != 'simulation':
                cx.equal([obj.totalTime, obj.stepSize, obj.stepCount], [tot, dt, num], 'forwarded by the system')


@harness('C16', reload=True, bounds='one to five steps, either of total time and step size given; any values')
def timeList(cx):
    sim = cx.qg.Simulation()
    num = cx.pick(cx.int('steps', 1, 5))
    if cx.bool('total'):
        total = cx.real('T', positive=True)
        sim.totalTime = total
        dt = total/num
    else:
        sim.stepSize = dt = cx.real('dt', positive=True)
    sim.stepCount = num
    cx.equal(sim.timeList, [k*dt for k in range(num+1)], 'times of the stored states')


OPS = ['simStep', 'simSamples', 'ownStep', 'ownSamples', 'ownTotal', 'proStep', 'proSamples', 'same', 'freq']


@harness('C16', reload=True, quick=[{'first': op, 'ops': 2} for op in OPS],
         thorough=[{'first': op, 'ops': 3} for op in OPS],
         bounds='a simulation of a system and a second protocol; two (thorough three) settings of the simulation, the '
                'system or the protocol, propagators read after each')
def follow(cx, first, ops):
    qg, jz = cx.qg, cx.ops.Jz(2, isDim=True)
    val = {}
    freq = cx.real('f', nonzero=True)
    sys = qg.Qubit(frequency=freq)
    pro = qg.freeEvolution(system=sys)
    early = cx.bool('setBefore')
    if early:
        sys.simulation.stepSize = val['ownStep'] = cx.real('early', positive=True)
    sim = qg.Simulation()
    sim.addSubSys(sys, pro)
    if cx.bool('bothProtocols'):
        sim.addSubSys(sys)
    sim.stepSize = val['simStep'] = cx.real('dt', positive=True)
    sim.totalTime = total = cx.real('T', positive=True)

    def get(names, default=None):
        for name in names:
            if name in val:
                return val[name]
        return default

    def verify():
        step = get(['ownStep', 'simStep'])
        samples = get(['ownSamples', 'simSamples'], 1)
        cx.equal([sys.simulation.stepSize, sys.simulation.samples], [step, samples],
                 'parameters that are not set follow the simulation')
        cx.equal(sys.unitary(), cx.expm(-1j*freq*(step/samples)*jz), 'propagator of the current parameters')
        step = get(['proStep', 'ownStep', 'simStep'])
        samples = get(['proSamples', 'ownSamples', 'simSamples'], 1)
        cx.equal([pro.simulation.stepSize, pro.simulation.samples], [step, samples],
                 'parameters that are not set follow the simulation')
        cx.equal(pro.unitary(), cx.expm(-1j*freq*(step/samples)*jz), 'propagator of the current parameters')
        cx.equal([sim.stepSize, sim.samples, sim.totalTime], [val['simStep'], get(['simSamples'], 1), total],
                 'setting a system or protocol does not change the simulation')
    verify()
    for ind in range(ops):
        what = first if not ind else cx.choice(f'op{ind}', OPS)
        if what == 'freq':
            sys.frequency = freq = cx.real(f'v{ind}', nonzero=True)
        elif what == 'ownTotal':
            sys.simulation.totalTime = cx.real(f'v{ind}', positive=True)
        elif what == 'same':
            val['ownStep'] = get(['ownStep', 'simStep'])
            sys.simulation.stepSize = val['ownStep']
        else:
            new = cx.int(f'v{ind}', 1, 9) if what.endswith('Samples') else cx.real(f'v{ind}', positive=True)
            val[what] = new
            owner = {'sim': sim, 'own': sys.simulation, 'pro': pro.simulation}[what[:3]]
            setattr(owner, 'samples' if what.endswith('Samples') else 'stepSize', new)
        verify()


WHO = ['sim', 'own', 'pro']
SETS = [w + n for w in WHO for n in ('Total', 'Step', 'Count')] + ['ownSamples', 'proSamples']
BEFORE = [([], True), (['ownStep'], True), (['ownStep'], False), (['ownStep', 'ownTotal'], False),
          (['ownTotal', 'ownCount'], False), (['proStep', 'proTotal'], True), (['ownSamples'], False)]


@harness('C16', reload=True, quick=[{'first': s, 'ops': 2} for s in SETS],
         thorough=[{'first': s, 'ops': 3} for s in SETS],
         bounds='a simulation of a system and a second protocol, times of the system set before or not; two (thorough '
                'three) settings of total time, step size (3/4, 2), step count (1, 3) or samples of any of them, all '
                'three read before each or only at the end; any total times')
def counts(cx, first, ops):
    qg = cx.qg
    val = {}
    closed = set()    # own values determine the count

    def put(sims, what, ind):
        who, name = what[:3], what[3:]
        if name == 'Samples':
            sims[who].samples = 2
            return
        if name == 'Total':
            new = cx.real(f'{name}{ind}', positive=True)
        elif name == 'Step':
            new = cx.frac(*cx.choice(f'{name}{ind}', [(3, 4), (2, 1)]))
        else:
            new = cx.choice(f'{name}{ind}', [1, 3])
        val.pop(who + 'Count', None)
        val[what] = new
        if get(who, 'Total') is not None and get(who, 'Step') is not None:
            closed.add(who)
        if name == 'Count':
            val[who + 'Step'] = get(who, 'Total')/new
        setattr(sims[who], {'Total': 'totalTime', 'Step': 'stepSize', 'Count': 'stepCount'}[name], new)

    def get(who, name):
        """who's own value or that of what it follows"""
        for level in WHO[WHO.index(who)::-1]:
            if level + name in val:
                return val[level + name]
        return None

    def count(who):
        tot, step = get(who, 'Total'), get(who, 'Step')
        for level in WHO[WHO.index(who)::-1]:
            given = val.get(level + 'Count')
            if given is not None and (tot == given*step or step == tot/given):
                return given
            if given is not None or level in closed:
                break
        return tot//step + 1

    sys = qg.Qubit(frequency=1)
    pro = qg.freeEvolution(system=sys)
    sims = {'own': sys.simulation, 'pro': pro.simulation}
    early, late = cx.choice('before', BEFORE)
    for num, what in enumerate(early):
        put(sims, what, f'e{num}')
    sim = sims['sim'] = qg.Simulation()
    if late:
        sim.addSubSys(sys, pro)
    sim.stepSize = val['simStep'] = cx.frac(1, 2)
    sim.totalTime = val['simTotal'] = cx.real('T', positive=True)
    closed.add('sim')
    if not late:
        sim.addSubSys(sys, pro)
        if 'ownStep' in val and 'ownTotal' not in val:    # a system with its own step takes the total time with it
            val['ownTotal'] = val['simTotal']
            closed.add('own')

    def verify():
        for who in WHO:
            obj = sims[who]
            cx.equal([obj.totalTime, obj.stepSize], [get(who, 'Total'), get(who, 'Step')], 'times of ' + who)
            cx.equal(obj.stepCount, count(who), 'steps of ' + who)
    each = cx.bool('each')
    for ind in range(ops):
        if each:
            verify()
        put(sims, first if not ind else cx.choice(f'op{ind}', SETS), ind)
    verify()


@harness('C16', reload=True, bounds='one or two settings of total time, step size, step count and samples through a system or '
                                    'protocol, then the compute function and whether states are deleted')
def through(cx):
    qg = cx.qg
    freq, dt = cx.real('freq', nonzero=True), cx.real('dt', positive=True)
    sys = qg.Qubit(frequency=freq)
    pro = qg.freeEvolution(system=sys)
    obj = cx.choice('through', [sys, pro])
    sim = obj.simulation
    num = cx.pick(cx.int('count', 1, 3))
    samples = cx.pick(cx.int('samples', 1, 2))
    obj.simSamples = samples
    if cx.choice('given', ['size', 'total']) == 'size':
        obj.simStepSize = size = dt
        obj.simStepCount = num
    else:
        obj.simStepCount = num
        obj.simTotalTime = dt
        size = dt/num

    def compute(*args):
        pass
    obj.simCompute = compute
    delete = cx.bool('delete')
    obj.simDelStates = delete
    cx.equal([sim.stepSize, sim.stepCount, sim.totalTime, sim.samples], [size, num, size*num, samples], 'values of the simulation')
    cx.check(sim.compute is compute and sim.delStates is delete, 'compute and delStates of the simulation')
    cx.equal(pro.unitary(), cx.expm(-1j*freq*(size/samples)*cx.ops.Jz(2, isDim=True)), 'propagator of the current parameters')
    given = obj.simParameters
    values = dict(zip([str(k).rstrip(':') for k in given[::2]], given[1::2]))
    cx.equal([values[k] for k in ('totalTime', 'stepSize', 'stepCount', 'samples')], [size*num, size, num, samples],
             'parameters shown are the current ones')
    cx.check(values['delStates'] is delete and values['compute'] is compute, 'parameters shown are the current ones')
