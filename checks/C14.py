"""Parameter sweeps visit every combination of values once and file the results under its indices."""
from symx.harness import harness

ASSUMPTIONS = ['swept values are free; non-diagonal exponentials are uninterpreted']


def sweepClass(cx):
    return cx.load('classes.QSweep').Sweep


@harness('C14', quick=[{'dims': d} for d in ((5,), (3, 4), (7, 2), (2, 3, 5), (4, 1, 3), (2, 3, 2, 4))],
         thorough=[{'dims': d} for d in ((97,), (13, 21), (50, 30), (7, 9, 11), (2, 3, 5, 7), (3, 2, 2, 2, 3))],
         bounds='any loop counter below the product of the given lengths (up to four, thorough five, sweeps)')
def indices(cx, dims):
    total = 1
    for dim in dims:
        total *= dim
    ind = cx.int('ind', 0, total-1)
    got = sweepClass(cx)._indicesForSweep(ind, *reversed(dims))
    cx.equal(len(got), len(dims), 'one index per sweep')
    number = 0
    for one, dim in zip(got, dims):
        cx.check(one >= 0, 'indices are in range')
        cx.check(one < dim, 'indices are in range')
        number = number*dim + one
    cx.equal(number, ind, 'every combination is visited once, the last sweep being the fastest')


@harness('C14', quick=[{'depth': d} for d in (1, 2)], bounds='any two or three lengths up to 2^16 and any loop counter')
def indicesAny(cx, depth):
    small, big = cx.int('small', 1, 2**16), cx.int('big', 1, 2**16)
    one, two = cx.int('i', 0, 2**16), cx.int('j', 0, 2**16)
    cx.assume(one < small)
    cx.assume(two < big)
    got = sweepClass(cx)._indicesForSweep(two*small + one, small, big) if depth == 2 else \
        sweepClass(cx)._indicesForSweep(one, small)
    cx.equal(got[-1], one, 'the last sweep is the fastest')
    if depth == 2:
        cx.equal(got[0], two, 'the first sweep is the slowest')


NUMBERS = [{'number': n, 'first': c, 'most': m} for n, c, m in ((1, True, 3), (1, False, 3), (2, True, 2), (2, False, 2),
                                                                (3, False, 2))]
DEEPER = [{'number': n, 'first': c, 'most': 3} for n in (1, 2, 3) for c in (True, False)]


@harness('C14', reload=True, quick=NUMBERS, thorough=DEEPER,
         bounds='up to three sweeps, simultaneous or combinatorial, of up to three values each (quick: two values for '
                'several sweeps); three qubits; one step; any values')
def values(cx, number, first, most):
    qg = cx.qg
    sweeps, flags, lens = [], [], []
    states = number < 3 and cx.bool('states')
    qubits = [qg.Qubit(frequency=cx.real(f'f{k}', nonzero=True)) for k in range(number)]
    psi = cx.ket('psi', 2)
    for q in qubits:
        q.initialState = psi if states else 0
    sim = qg.Simulation(subSys=qubits)
    dt = cx.real('dt', positive=True)
    sim.stepSize = dt
    sim.stepCount = 1
    for k, q in enumerate(qubits):
        flag = first if k == 0 else cx.bool(f'comb{k}')
        if k and not flag:
            num = lens[-1]
        else:
            num = cx.pick(cx.int(f'n{k}', 1, most))
        vals = [cx.real(f'v{k}_{j}', nonzero=True) for j in range(num)]
        sim.Sweep.createSweep(system=cx.choice('by', [q, q.name]) if number == 1 else q, sweepKey='frequency',
                              sweepList=vals, combinatorial=flag)
        sweeps.append(vals)
        flags.append(flag)
        lens.append(num)
    seen = []

    def compute(obj, sts):
        now = [q.frequency for q in qubits]
        seen.append(now)
        obj.qRes.singleResult = ['f', now]
    sim.compute = compute
    sim.postCompute = lambda obj: setattr(obj.qRes, 'singleResult', ['end', [q.frequency for q in qubits][0]])
    sim.run()
    groups = [0]
    for flag in flags[1:]:
        groups.append(groups[-1] + int(flag))
    dims = [lens[groups.index(g)] for g in range(groups[-1]+1)]

    def visit(pos, chosen, res, end, sts, out):
        if pos == len(dims):
            want = [sweeps[k][chosen[groups[k]]] for k in range(number)]
            out.append(want)
            cx.equal(len(res), 2, 'one result per state')
            for one in res:
                cx.equal(one, want, 'results are filed under the indices of their values')
            cx.equal(end, want[0], 'a single result is filed under the indices of its values')
            for k in range(number if states else 0):
                prop = cx.expm(-1j*dt*want[k]*cx.ops.Jz(2, isDim=True))
                cx.equal(len(sts[k]), 2, 'every state is kept')
                cx.equal(sts[k][0], psi, 'every point starts from the initial state')
                cx.equal(sts[k][1], prop @ psi, 'states are filed under the indices of their values')
            return
        cx.equal(len(res), dims[pos], 'results have the shape of the sweeps')
        for j in range(dims[pos]):
            visit(pos+1, chosen+[j], res[j], end[j], [s[j] for s in sts] if states else None, out)
    order = []
    visit(0, [], sim.resultsDict['f'], sim.resultsDict['end'],
          [sim.states[q.name + 'Results'] for q in qubits] if states else None, order)
    cx.equal(len(seen), 2*len(order), 'every combination is visited once')
    for k, want in enumerate(order):
        cx.equal(seen[2*k], want, 'points are visited in order')


@harness('C14', reload=True, quick=[{'change': c} for c in ('list', 'remove', 'removeAll', 'flag', 'add', 'frequency',
                                                            'initialState')],
         bounds='two sweeps of two values; run, one change, run again')
def again(cx, change):
    qg = cx.qg
    qubits = [qg.Qubit(frequency=cx.real(f'f{k}', nonzero=True)) for k in range(3)]
    psi = cx.ket('psi', 2)
    for q in qubits:
        q.initialState = psi
    freqs = [q.frequency for q in qubits]
    sim = qg.Simulation(subSys=qubits)
    dt = cx.real('dt', positive=True)
    sim.stepSize = dt
    sim.stepCount = 1
    comb = cx.bool('comb')
    lists = {k: [cx.real(f'v{k}_{j}', nonzero=True) for j in range(2)] for k in range(2)}
    sweeps = {k: sim.Sweep.createSweep(system=qubits[k], sweepKey='frequency', sweepList=lists[k],
                                       combinatorial=comb and k == 1) for k in range(2)}

    def verify():
        sim.run()
        if not lists:
            points = [(None, {})]
        else:
            keys = list(lists)
            if comb and len(keys) > 1:
                points = [((i, j), {keys[0]: a, keys[1]: b}) for i, a in enumerate(lists[keys[0]])
                          for j, b in enumerate(lists[keys[1]])]
            else:
                points = [((i,), {k: lists[k][i] for k in keys}) for i in range(len(lists[keys[0]]))]
        for k, q in enumerate(qubits):
            res = sim.states[q.name + 'Results']
            if lists:
                cx.equal(len(res), len({p[0][0] for p in points}), 'results have the shape of the sweeps')
            for ind, vals in points:
                one = res
                for i in ind or ():
                    one = one[i]
                prop = cx.expm(-1j*dt*vals.get(k, freqs[k])*cx.ops.Jz(2, isDim=True))
                cx.equal(len(one), 2, 'states of each point')
                cx.equal(one[0], psi, 'every point starts from the initial state')
                cx.equal(one[1], prop @ psi, 'states are those of the current sweeps')
        for k in lists:
            freqs[k] = points[-1][1][k]
    if cx.bool('before'):
        verify()
    if change == 'list':
        num = cx.pick(cx.int('num', 1, 3))
        if not comb:
            num = 2
        lists[1] = sweeps[1].sweepList = [cx.real(f'w{j}', nonzero=True) for j in range(num)]
    elif change == 'remove':
        which = cx.pick(cx.int('which', 0, 1))
        by = cx.choice('by', ['sweep', 'system', 'name', 'simulation'])
        if by == 'simulation':
            sim.removeSweep(qubits[which])
        else:
            sim.Sweep.removeSweep({'sweep': sweeps[which], 'system': qubits[which], 'name': qubits[which].name}[by])
        del lists[which]
    elif change == 'removeAll':
        sim.removeSweep(qubits)
        lists.clear()
    elif change == 'flag':
        comb = not comb
        sweeps[1].combinatorial = comb
    elif change == 'add':
        lists[2] = [cx.real(f'w{j}', nonzero=True) for j in range(2)]
        if comb:
            del lists[0]
            sim.Sweep.removeSweep(sweeps[0])
        sim.Sweep.createSweep(system=qubits[2], sweepKey='frequency', sweepList=lists[2], combinatorial=comb)
    elif change == 'frequency':
        qubits[2].frequency = freqs[2] = cx.real('w', nonzero=True)
    elif change == 'initialState':
        psi = cx.ket('phi', 2)
        for q in qubits:
            q.initialState = psi
    verify()


KINDS = ['angle', 'stepSize', 'initialState', 'several', 'term', 'custom', 'auxiliary', 'dimension', 'range', 'log', 'own']


@harness('C14', reload=True, quick=[{'kind': k} for k in KINDS],
         bounds='one sweep of up to three values of every kind of attribute; two steps')
def targets(cx, kind):
    qg, ops = cx.qg, cx.ops
    f = cx.real('f', nonzero=True)
    dt = cx.real('dt', positive=True)
    jz, jy = ops.Jz(2, isDim=True), ops.Jy(2, isDim=True)
    num = cx.pick(cx.int('num', 1, 3))
    sys = qg.Qubit(frequency=f)
    psi = cx.ket('psi', 2)
    sys.initialState = psi
    sim = qg.Simulation(subSys=sys)
    sim.stepSize = dt
    steps = 2
    sim.stepCount = steps
    name = sys.name + 'Results'
    vals = [cx.real(f'v{j}', positive=True) for j in range(num)]
    start = [psi]*num
    counts = [steps]*num
    if kind == 'angle':
        gate = qg.SpinRotation(system=sys, angle=f, rotationAxis='y')
        pro = qg.qProtocol(system=sys, steps=[gate])
        sim.addSubSys(sys, pro)
        sim.Sweep.createSweep(system=gate, sweepKey='angle', sweepList=vals)
        name = pro.name + 'Results'
        props = [cx.expm(-1j*v*jy) for v in vals]
    elif kind == 'stepSize':
        total = cx.real('total', positive=True)
        sim.totalTime = total
        vals = [total/(j+1) for j in range(num)]
        counts = [j+2 for j in range(num)]
        sim.Sweep.createSweep(system=sim, sweepKey='stepSize', sweepList=vals)
        props = [cx.expm(-1j*v*f*jz) for v in vals]
    elif kind == 'initialState':
        start = [cx.ket(f'psi{j}', 2) for j in range(num)]
        sim.Sweep.createSweep(system=sys, sweepKey='initialState', sweepList=start)
        props = [cx.expm(-1j*dt*f*jz)]*num
    elif kind == 'several':
        term = sys.createTerm(operator=ops.sigmaz, frequency=cx.real('g', nonzero=True))
        sim.Sweep.createSweep(system=[sys, term], sweepKey='frequency', sweepList=vals)
        props = [cx.expm(-1j*dt*(v*jz + v*ops.sigmaz())) for v in vals]
    elif kind == 'term':
        term = sys.createTerm(operator=ops.Jx, frequency=cx.real('g', nonzero=True))
        sim.Sweep.createSweep(system=cx.choice('by', [term, term.name]), sweepKey='frequency', sweepList=vals)
        props = [cx.expm(-1j*dt*(f*jz + v*ops.Jx(2, isDim=True))) for v in vals]
    elif kind == 'custom':
        def function(sweep):
            sys.frequency = 2*sweep.sweepList[sweep.index]
            cx.equal(sweep.index, expected.pop(0), 'a sweep function finds the index of its value')
        expected = list(range(num))
        swp = sim.Sweep.createSweep(system=sys, sweepKey='frequency', sweepList=vals)
        swp.sweepFunction = function
        props = [cx.expm(-1j*dt*2*v*jz) for v in vals]
    elif kind == 'auxiliary':
        sim.Sweep.createSweep(system=sys, sweepKey='nothingLikeThat', sweepList=vals)
        seen = []
        sim.preCompute = lambda obj: seen.append(sys.auxDict['nothingLikeThat'])
        props = [cx.expm(-1j*dt*f*jz)]*num
    elif kind == 'dimension':
        cav = qg.Cavity(frequency=f, dimension=2)
        sim = qg.Simulation(subSys=cav)
        sim.stepSize = dt
        sim.stepCount = steps
        name = cav.name + 'Results'
        cav.initialState = 1
        dims = [2 + cx.pick(cx.int(f'd{j}', 0, 2)) for j in range(num)]
        sim.Sweep.createSweep(system=cav, sweepKey='dimension', sweepList=dims)
        props = [cx.expm(-1j*dt*f*ops.number(d)) for d in dims]
        start = [cx.st.basis(d, 1) for d in dims]
    elif kind == 'range':
        low, step = cx.real('low', positive=True), cx.real('step', positive=True)
        vals = [low + k*step for k in range(num)]
        sim.Sweep.createSweep(system=sys, sweepKey='frequency', sweepMin=low, sweepMax=low + (num-1)*step, sweepStep=step)
        props = [cx.expm(-1j*dt*v*jz) for v in vals]
    elif kind == 'own':
        sim = sys.simulation        # no system is given: the one of the simulation
        sim.stepSize = dt
        sim.stepCount = steps
        swp = sim.Sweep.createSweep(sweepKey='frequency', sweepList=vals)
        cx.check([s is sys for s in swp.subSys.values()] == [True], 'the system of the simulation is swept')
        props = [cx.expm(-1j*dt*v*jz) for v in vals]
    elif kind == 'log':
        low, step = 1, cx.choice('step', [1, 2])
        vals = [10.0**(low + k*step) for k in range(num)]
        sim.Sweep.createSweep(system=sys, sweepKey='frequency', sweepMin=low, sweepMax=low + (num-1)*step, sweepStep=num,
                              logSweep=True)
        props = [cx.expm(-1j*dt*v*jz) for v in vals]
    sim.run()
    res = sim.states[name]
    cx.equal(len(res), num, 'one result per value')
    for j in range(num):
        cx.equal(len(res[j]), counts[j]+1, 'every state is kept')
        state = start[j]
        for k in range(counts[j]+1):
            cx.equal(res[j][k], state, 'states are those of the swept value')
            state = props[j] @ state
    if kind == 'auxiliary':
        cx.equal(seen, vals, 'a key that is no attribute is swept in the auxiliary dictionary')


@harness('C14', reload=True, quick=[{}], bounds='two sweeps of one attribute, the faster one adding to what the slower one has '
         'set, or a compute changing it; two or three values by two, one or two runs')
def dependent(cx):
    qg, ops = cx.qg, cx.ops
    dt = cx.real('dt', positive=True)
    sys = qg.Qubit(frequency=cx.real('f', nonzero=True))
    psi = cx.ket('psi', 2)
    sys.initialState = psi
    sys.stepSize = dt
    sys.stepCount = 1
    slow = [cx.real(f's{k}', positive=True) for k in range(cx.pick(cx.int('slow', 2, 3)))]
    fast = [cx.real(f'q{k}', positive=True) for k in range(2)]
    how = cx.choice('how', ['function', 'compute', 'other'])
    swps = [sys.simulation.Sweep.createSweep(system=sys, sweepKey='frequency', sweepList=slow, combinatorial=True)]
    want = []
    if how == 'function':
        def add(sweep):
            sys.frequency = sys.frequency + sweep.sweepList[sweep.index]
        swp = sys.simulation.Sweep.createSweep(system=sys, sweepKey='frequency', sweepList=fast, combinatorial=True)
        swp.sweepFunction = add
        want = [[one + two for two in fast] for one in slow]
    elif how == 'compute':
        term = sys.createTerm(operator=ops.Jx, frequency=1)
        sys.simulation.Sweep.createSweep(system=term, sweepKey='frequency', sweepList=fast, combinatorial=True)

        def spoil(sim):
            sys.frequency = 7
        sys.simulation.postCompute = spoil
        want = [[(one, two) for two in fast] for one in slow]
    else:
        # the faster one sets the same attribute: it has the last word
        sys.simulation.Sweep.createSweep(system=sys, sweepKey='frequency', sweepList=fast, combinatorial=True)
        want = [[two for two in fast] for one in slow]
    for _ in range(2 if cx.bool('again') else 1):
        res = sys.runSimulation()
        for i in range(len(slow)):
            for j in range(len(fast)):
                val = want[i][j]
                ham = val[0]*ops.Jz(2, isDim=True) + val[1]*ops.Jx(2, isDim=True) if how == 'compute' \
                    else val*ops.Jz(2, isDim=True)
                cx.equal(res[i][j][-1], cx.expm(-1j*dt*ham) @ psi, 'every sweep sets its value at every point')
