"""Running a simulation applies the current propagators step by step and stores every state."""
from symx.harness import harness

ASSUMPTIONS = ['frequencies, rates, step sizes and initial states are free; non-diagonal exponentials are uninterpreted']


def qubit(cx, par, name='s'):
    sys = cx.qg.Qubit(frequency=par['f'])
    if par.get('g') is not None:
        par['term'] = sys.createTerm(operator=cx.ops.Jx, frequency=par['g'])
    return sys


def ham(cx, par):
    out = par['f']*cx.ops.Jz(2, isDim=True)
    if par.get('g') is not None:
        out = out + par['g']*cx.ops.Jx(2, isDim=True)
    return out


def history(prop, state, steps):
    out = [state]
    for k in range(steps):
        state = (prop(k) if callable(prop) else prop) @ state
        out.append(state)
    return out


def sameStates(cx, got, want, label):
    cx.equal(len(got), len(want), label + ': number of states')
    for one, two in zip(got, want):
        cx.equal(one, two, label)


SETUPS = ['own', 'simulation', 'protocols', 'composed']


@harness('C19', reload=True, quick=[{'setup': s, 'runs': 2} for s in SETUPS],
         thorough=[{'setup': s, 'runs': 3} for s in SETUPS],
         bounds='one or two protocols of one system; 1..3 steps; any initial state, frequencies, step size; run again '
                'after a change')
def evolve(cx, setup, runs):
    qg, ops = cx.qg, cx.ops
    par = dict(f=cx.real('f', nonzero=True), g=cx.real('g', nonzero=True) if setup != 'composed' and cx.bool('mixed') else None)
    sys = qubit(cx, par)
    psi = cx.ket('psi', 2, cx.bool('sparse'))
    sys.initialState = psi
    dt = cx.real('dt', positive=True)
    steps = cx.pick(cx.int('steps', 1, 2 if setup == 'composed' else 3))
    sim = sys.simulation if setup == 'own' else qg.Simulation(subSys=sys)
    angle = cx.real('angle', nonzero=True)
    free = lambda: cx.expm(-1j*dt*ham(cx, par))
    rot = lambda: cx.expm(-1j*angle*ops.Jy(2, isDim=True))
    protocols = [(sys._freeEvol, sys.name, free)]
    if setup in ('protocols', 'composed'):
        gate = qg.SpinRotation(system=sys, angle=angle, rotationAxis='y')
        if setup == 'protocols':
            new = qg.qProtocol(system=sys, steps=[gate])
            prop = rot
        else:
            new = qg.qProtocol(system=sys, steps=[gate, qg.freeEvolution(system=sys), gate.hc])
            prop = lambda: cx.dag(rot()) @ free() @ rot()
        sim.addSubSys(sys, new)
        protocols.append((new, new.name, prop))
        if cx.bool('own'):
            psi2 = cx.ket('psiP', 2)
            new.initialState = psi2
        else:
            psi2 = None
    sim.stepSize = dt
    sim.stepCount = steps
    delStates = cx.bool('delStates')
    sim.delStates = delStates
    for num in range(runs):
        if num:
            what = cx.choice(f'op{num}', ['frequency', 'state', 'angle', 'stepSize', 'nothing'])
            if what == 'frequency':
                sys.frequency = par['f'] = cx.real(f'v{num}', nonzero=True)
            elif what == 'angle':
                angle = cx.real(f'v{num}', nonzero=True)
                if len(protocols) == 1:
                    return
                gate.angle = angle
            elif what == 'stepSize':
                dt = cx.real(f'v{num}', positive=True)
                sim.totalTime = steps*dt
                sim.stepCount = steps
            elif what == 'state':
                psi = cx.ket(f'phi{num}', 2)
                sys.initialState = psi
        res = sys.runSimulation() if setup == 'own' else sim.run()
        for pos, (pro, name, prop) in enumerate(protocols):
            start = psi if pos == 0 or psi2 is None else psi2
            want = history(prop(), start, steps)
            cx.equal(pro.currentState, want[-1], 'last state')
            got = sim.states[name + 'Results']
            if delStates:
                cx.check(len(got) == 0, 'states are not kept when they are to be deleted')
                continue
            sameStates(cx, got, want, 'states are the propagator applied step by step')
            if setup == 'own':
                sameStates(cx, res, want, 'run returns the states')


@harness('C19', reload=True, quick=[{'protocols': n} for n in (1, 2)],
         bounds='computes, pre- and post-computes of a simulation, one or two protocols and the system; 1..2 steps')
def computes(cx, protocols):
    qg, ops = cx.qg, cx.ops
    par = dict(f=cx.real('f', nonzero=True))
    sys = qubit(cx, par)
    psi = cx.ket('psi', 2)
    sys.initialState = psi
    dt = cx.real('dt', positive=True)
    steps = cx.pick(cx.int('steps', 1, 2))
    sim = qg.Simulation(subSys=sys)
    pros = [(sys._freeEvol, cx.expm(-1j*dt*ham(cx, par)))]
    if protocols == 2:
        angle = cx.real('angle', nonzero=True)
        gate = qg.SpinRotation(system=sys, angle=angle, rotationAxis='y')
        gate = qg.qProtocol(system=sys, steps=[gate])
        sim.addSubSys(sys, gate)
        pros.append((gate, cx.expm(-1j*angle*ops.Jy(2, isDim=True))))
    sim.stepSize = dt
    sim.stepCount = steps
    sim.delStates = cx.bool('delStates')
    log = []
    which = cx.choice('which', ['all', 'sim', 'system', 'protocols'])
    objs = {'sim': sim, 'sys': sys}
    for pos, (pro, _) in enumerate(pros):
        objs[f'pro{pos}'] = pro
    used = [n for n in objs if which == 'all' or n[:3] == which[:3]]

    def handlers(name):
        def compute(obj, states):
            log.append(('compute', name, states))
            obj.qRes.singleResult = ['count', len([e for e in log if e[:2] == ('compute', name)])]

        def pre(obj):
            log.append(('pre', name, None))

        def post(obj):
            log.append(('post', name, None))
        return compute, pre, post
    for name in used:
        objs[name].compute, objs[name].preCompute, objs[name].postCompute = handlers(name)
    sim.run()
    states = [history(prop, psi, steps) for _, prop in pros]
    order = ['sim'] + [f'pro{k}' for k in range(len(pros))] + ['sys']
    want = [('pre', n) for n in order]
    for k in range(steps+1):
        want += [('compute', n, k) for n in order]
    want += [('post', n) for n in order]
    want = [w for w in want if w[1] in used]
    cx.check([e[:2] for e in log] == [w[:2] for w in want], 'every compute is called once per state, in order')
    for (kind, name, given), exp in zip(log, want):
        if kind != 'compute':
            continue
        k = exp[2]
        if name == 'sim':
            cx.equal(len(given), len(pros), 'a simulation computes on the states of all its protocols')
            for got, hist in zip(given, states):
                cx.equal(got, hist[k], 'compute is given the states of its step')
        else:
            cx.equal(given, states[int(name[3:]) if name[:3] == 'pro' else 0][k],
                     'compute is given the states of its step')
    for name in used:
        cx.equal(objs[name].resultsDict['count'], list(range(1, steps+2)), 'results are stored in order')
        cx.equal(objs[name].qRes.results['count'] if hasattr(objs[name].qRes, 'results') else list(range(1, steps+2)),
                 list(range(1, steps+2)), 'results are stored in order')


@harness('C19', reload=True, quick=[{'how': h} for h in ('samples', 'term', 'sweep', 'composite', 'ownTimes')],
         bounds='1..3 steps; step samples, time-dependent terms and swept time dependency with any values; own '
                'step sizes and samples of a system, protocol or part')
def dependent(cx, how):
    qg, ops = cx.qg, cx.ops
    par = dict(f=cx.real('f', nonzero=True))
    sys = qubit(cx, par)
    psi = cx.ket('psi', 2)
    dt = cx.real('dt', positive=True)
    steps = cx.pick(cx.int('steps', 1, 3))
    angle = cx.real('angle', nonzero=True)
    jz, jy, jx = (op(2, isDim=True) for op in (ops.Jz, ops.Jy, ops.Jx))
    rot = cx.expm(-1j*angle*jy)
    if how == 'samples':
        samples = cx.pick(cx.int('samples', 2, 3))
        gate = qg.SpinRotation(system=sys, angle=angle, rotationAxis='y')
        evo = qg.freeEvolution(system=sys)
        pro = qg.qProtocol(system=sys, steps=[gate, evo])
        sim = qg.Simulation(subSys=sys)
        sim.addSubSys(sys, pro)
        sys.initialState = psi
        sim.stepSize = dt
        sim.stepCount = steps
        evo.simulation.samples = samples
        seen = []

        def compute(obj, state):
            seen.append(list(obj.sampleStates))
        pro.compute = compute
        sim.run()
        small = cx.expm(-1j*par['f']*(dt/samples)*jz)
        state, want, inner = psi, [psi], [[]]
        for _ in range(steps):
            state = rot @ state
            inner.append([state])
            for _ in range(samples):
                state = small @ state
                inner[-1].append(state)
            want.append(state)
        sameStates(cx, sim.states[pro.name + 'Results'], want, 'every step is applied its number of samples')
        for got, exp in zip(seen, inner):
            sameStates(cx, got, exp, 'states of the samples')
        return
    if how == 'ownTimes':
        amp = cx.real('amp', nonzero=True)
        who = cx.choice('who', ['system', 'protocol', 'part', 'part before'])
        if who == 'part before':
            sys.simulation.stepSize = cx.real('old', positive=True)
        top = sys + qg.Qubit(frequency=0) if who.startswith('part') else sys
        psi = cx.ket('phi', 4 if top is not sys else 2)
        top.initialState = psi
        pro = qg.freeEvolution(system=top)
        sim = qg.Simulation()
        given = 'stepSize' if who == 'part before' else cx.choice('given', ['samples', 'stepSize'])
        num = cx.pick(cx.int('samples', 1, 2)) if given == 'samples' else 1

        def give():
            if who != 'part before':
                setattr({'system': sys, 'protocol': pro, 'part': sys}[who].simulation, given,
                        num if given == 'samples' else dt)
        early = cx.bool('early')
        if early:
            give()
        sim.addSubSys(top, pro)
        sim.stepSize = dt
        sim.totalTime = steps*dt
        if not early:
            give()
        sys._firstTerm.timeDependency = lambda term, time: setattr(term, 'frequency', amp*time)
        sim.run()
        oper = cx.dense(cx.sp.kron(jz, cx.eye(2))) if top is not sys else cx.dense(jz)
        times = 1 if who == 'part' else num
        prop = lambda k: cx.expm(-1j*(dt/times)*(amp*((k+1)*dt)*oper))
        got = sim.states[pro.name + 'Results']
        sameStates(cx, got, history(prop, psi, len(got) - 1), 'a time-dependent term takes its value of each step')
        return
    if how == 'composite':
        other = cx.real('h', nonzero=True)
        two = qg.Qubit(frequency=other)
        comp = sys + two
        psi = cx.ket('phi', 4)
        comp.initialState = psi
        amp = cx.real('amp', nonzero=True)
        two._firstTerm.timeDependency = lambda term, time: setattr(term, 'frequency', amp*time)
        eye = cx.eye(2)
        sim = comp.simulation
        sim.stepSize = dt
        sim.stepCount = steps
        comp.runSimulation()
        prop = lambda k: cx.expm(-1j*dt*(par['f']*cx.sp.kron(jz, eye) + amp*((k+1)*dt)*cx.sp.kron(eye, jz)))
        sameStates(cx, sim.states[comp.name + 'Results'], history(prop, psi, steps),
                   'a time-dependent term takes its value of each step')
        return
    sys.initialState = psi
    sim = sys.simulation
    sim.stepSize = dt
    if how == 'term':
        amp = cx.real('amp', nonzero=True)
        term = sys.createTerm(operator=ops.Jx, frequency=cx.real('start', nonzero=True))
        term.timeDependency = lambda term, time: setattr(term, 'frequency', amp*time)
        gate = qg.SpinRotation(system=sys, angle=angle, rotationAxis='y')
        pro = qg.qProtocol(system=sys, steps=[gate, qg.freeEvolution(system=sys)])
        sim.addSubSys(sys, pro)
        sim.stepCount = steps
        times = []
        sys.compute = lambda obj, state: times.append(sim._currentTime)
        free = lambda k: cx.expm(-1j*dt*(par['f']*jz + amp*((k+1)*dt)*jx))
        for _ in range(2):
            times.clear()
            sys.runSimulation()
            sameStates(cx, sim.states[sys.name + 'Results'], history(free, psi, steps),
                       'a time-dependent term takes its value of each step')
            sameStates(cx, sim.states[pro.name + 'Results'], history(lambda k: free(k) @ rot, psi, steps),
                       'a time-dependent term takes its value of each step')
            cx.equal(times, [k*dt for k in range(steps+1)], 'current time of each state')
        return
    vals = [cx.real(f'v{k}', nonzero=True) for k in range(steps)]
    if cx.bool('total'):
        sim.totalTime = steps*dt
    sim.timeDependency.createSweep(system=sys, sweepKey='frequency', sweepList=vals)
    for _ in range(2):
        sys.runSimulation()
        free = lambda k: cx.expm(-1j*dt*vals[k]*jz)
        sameStates(cx, sim.states[sys.name + 'Results'], history(free, psi, steps),
                   'a swept time dependency takes one value per step')
