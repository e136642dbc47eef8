"""Protocols: the propagator is the ordered product of the current steps."""
from symx.harness import harness

ASSUMPTIONS = ['frequencies, angles, step sizes and ratios are free reals; non-diagonal exponentials are uninterpreted']


def system(cx, name='s', mixed=True):
    """a qubit with a free frequency, and a second term that does not commute with the first"""
    qg, ops = cx.qg, cx.ops
    freq = cx.real(name + 'f', nonzero=True)
    sys = qg.Qubit(frequency=freq)
    par = dict(f=freq, g=0)
    if mixed:
        par['g'] = cx.real(name + 'g', nonzero=True)
        par['term'] = sys.createTerm(operator=ops.Jx, frequency=par['g'])
    return sys, par


def ham(cx, par):
    return par['f']*cx.ops.Jz(2, isDim=True) + par['g']*cx.ops.Jx(2, isDim=True)


@harness('C13', reload=True, quick=[{'steps': 2}], thorough=[{'steps': 3}],
         bounds='one system, histories of 2 (thorough 3) parameter changes with the propagator read or not in between')
def free(cx, steps):
    qg = cx.qg
    own = cx.bool('ownProtocol')
    sys, par = system(cx, mixed=not own)
    dt = cx.real('dt', positive=True)
    sys.simulation.stepSize = dt
    pro = sys._freeEvol
    ratio, samples = 1, 1
    if own:
        pro = qg.freeEvolution(system=sys)
    for step in range(steps+1):
        if step:
            what = cx.choice(f'op{step}', ['frequency', 'term', 'stepSize', 'ratio', 'samples'])
            new = cx.real(f'v{step}', positive=True)
            if what == 'frequency':
                sys.frequency = par['f'] = new
            elif what == 'term':
                if own:
                    return
                par['term'].frequency = par['g'] = new
            elif what == 'stepSize':
                sys.simulation.stepSize = dt = new
            elif what == 'ratio':
                pro.ratio = ratio = -1*new
            elif what == 'samples':
                samples = 5-samples
                sys.simulation.samples = samples
        if step in (0, steps) or cx.bool(f'read{step}'):
            want = cx.expm(-1j*ham(cx, par)*(dt*ratio/samples))
            cx.equal(pro.unitary() if own or cx.bool(f'viaProtocol{step}') else sys.unitary(), want,
                     'propagator of the current parameters')


def product(cx, mats):
    out = cx.eye(2)
    for mat in mats:
        out = mat @ out
    return out


class Step:
    def __init__(self, obj, want):
        self.obj, self.want = obj, want


OPS = ['frequency', 'angle', 'stepSize', 'ratio', 'phase']
QUICK = [{'num': 2, 'first': op, 'steps': 1} for op in OPS] + [{'num': 3, 'first': 'angle', 'steps': 1}]
DEEP = [{'num': 3, 'first': op, 'steps': 1} for op in OPS] + [{'num': 2, 'first': op, 'steps': 2} for op in OPS]


@harness('C13', reload=True, quick=QUICK, thorough=DEEP,
         bounds='protocols of 1..2 (3) steps (free evolution, rotation, repeated step, adjoint of a step, nested '
                'protocol), one change (thorough two) of a parameter between readings')
def composed(cx, num, first, steps):
    qg, ops = cx.qg, cx.ops
    sys, par = system(cx)
    sys.simulation.stepSize = dt = cx.real('dt', positive=True)
    par['dt'] = dt
    evo = qg.freeEvolution(system=sys)
    par['ratio'] = 1
    angle = par['angle'] = cx.real('angle', nonzero=True)
    gate = qg.SpinRotation(system=sys, angle=angle, rotationAxis='y')
    free = Step(evo, lambda: cx.expm(-1j*ham(cx, par)*(par['dt']*par['ratio'])))
    par['phase'] = 1
    rot = Step(gate, lambda: cx.expm(-1j*(par['phase']*par['angle'])*ops.Jy(2, isDim=True)))
    count = cx.pick(cx.int('count', 1, num))
    chosen = []
    for ind in range(count):
        kind = cx.choice(f'kind{ind}', ['free', 'rot', 'freeAdjoint', 'rotAdjoint', 'nested'])
        if kind == 'free':
            chosen.append(free)
        elif kind == 'rot':
            chosen.append(rot)
        elif kind == 'freeAdjoint':
            chosen.append(Step(evo.hc, lambda: cx.dag(free.want())))
        elif kind == 'rotAdjoint':
            chosen.append(Step(gate.hc, lambda: cx.dag(rot.want())))
        else:
            chosen.append(Step(qg.qProtocol(system=sys, steps=[gate, evo]), lambda: free.want() @ rot.want()))
    pro = qg.qProtocol(system=sys, steps=[s.obj for s in chosen])
    sys.simulation.addProtocol(pro)
    for step in range(steps+1):
        if step:
            what = first if step == 1 else cx.choice(f'op{step}', OPS)
            new = cx.real(f'v{step}', positive=True)
            if what == 'frequency':
                sys.frequency = par['f'] = new
            elif what == 'angle':
                gate.angle = par['angle'] = new
            elif what == 'stepSize':
                sys.simulation.stepSize = par['dt'] = new
            elif what == 'phase':
                gate.phase = par['phase'] = new
            else:
                evo.ratio = par['ratio'] = new
        cx.equal(pro.unitary(), product(cx, [s.want() for s in chosen]), 'ordered product of the current steps')


@harness('C13', reload=True, quick=[{'first': op, 'steps': 2} for op in ('frequency', 'angle', 'ratio')],
         thorough=[{'first': op, 'steps': 3} for op in ('frequency', 'angle', 'ratio')],
         bounds='two protocols sharing their steps; two (thorough three) rounds of changing a parameter and reading one '
                'of the steps or protocols, then all are read')
def shared(cx, first, steps):
    qg, ops = cx.qg, cx.ops
    par = dict(f=cx.real('f', nonzero=True), angle=cx.real('angle', nonzero=True), ratio=1)
    sys = qg.Qubit(frequency=par['f'])
    dt = cx.real('dt', positive=True)
    sys.simulation.stepSize = dt
    evo = qg.freeEvolution(system=sys)
    gate = qg.SpinRotation(system=sys, angle=par['angle'], rotationAxis='y')
    wantE = lambda: cx.expm(-1j*(par['f']*dt*par['ratio'])*ops.Jz(2, isDim=True))
    wantG = lambda: cx.expm(-1j*par['angle']*ops.Jy(2, isDim=True))
    proA = qg.qProtocol(system=sys, steps=[gate, evo])
    proB = qg.qProtocol(system=sys, steps=[evo.hc, gate, evo] if cx.bool('adjoint') else [evo, gate])
    adj = len(proB.steps) == 3
    items = [(evo, wantE), (gate, wantG), (proA, lambda: wantE() @ wantG()),
             (proB, lambda: (wantE() @ wantG() @ cx.dag(wantE())) if adj else (wantG() @ wantE()))]
    for obj, want in items:
        cx.equal(obj.unitary(), want(), 'ordered product of the current steps')
    for step in range(steps):
        what = first if not step else cx.choice(f'op{step}', ['frequency', 'angle', 'ratio'])
        new = cx.real(f'v{step}', positive=True)
        if what == 'frequency':
            sys.frequency = par['f'] = new
        elif what == 'angle':
            gate.angle = par['angle'] = new
        else:
            evo.ratio = par['ratio'] = new
        obj, want = cx.choice(f'read{step}', items)
        cx.equal(obj.unitary(), want(), 'ordered product of the current steps')
    for obj, want in items:
        cx.equal(obj.unitary(), want(), 'ordered product of the current steps')


@harness('C13', reload=True, quick=[{'where': w} for w in ('protocol', 'step', 'both')],
         bounds='updates of the frequency in a protocol, in a step, or both; one or two systems updated; two readings '
                'with a change in between')
def updates(cx, where):
    qg, ops = cx.qg, cx.ops
    par = dict(f=cx.real('f', nonzero=True), angle=cx.real('angle', nonzero=True))
    sys = qg.Qubit(frequency=par['f'])
    dt = cx.real('dt', positive=True)
    sys.simulation.stepSize = dt
    evo, evo2 = qg.freeEvolution(system=sys), qg.freeEvolution(system=sys)
    gate = qg.SpinRotation(system=sys, angle=par['angle'], rotationAxis='y')
    pro = qg.qProtocol(system=sys, steps=[gate, evo, evo2])
    vals = {}
    if where in ('protocol', 'both'):
        vals['pro'] = cx.real('upd', nonzero=True)
        pro.createUpdate(system=sys, key='frequency', value=vals['pro'])
    if where in ('step', 'both'):
        vals['step'] = cx.real('updStep', nonzero=True)
        evo.createUpdate(system=sys, key='frequency', value=vals['step'])

    def free(freq):
        return cx.expm(-1j*(freq*dt)*ops.Jz(2, isDim=True))

    def rot():
        return cx.expm(-1j*par['angle']*ops.Jy(2, isDim=True))

    def want():
        base = vals.get('pro', par['f'])
        return free(base) @ free(vals.get('step', base)) @ rot()
    cx.equal(pro.unitary(), want(), 'steps with their updated parameters')
    cx.equal(sys.frequency, par['f'], 'updates are undone')
    what = cx.choice('op', ['frequency', 'angle', 'nothing'])
    if what == 'frequency':
        sys.frequency = par['f'] = cx.real('new', nonzero=True)
    elif what == 'angle':
        gate.angle = par['angle'] = cx.real('new', nonzero=True)
    if cx.bool('readSteps'):
        cx.equal(evo.unitary(), free(vals.get('step', par['f'])), 'a step alone has its own parameters')
        cx.equal(evo2.unitary(), free(par['f']), 'a step alone has its own parameters')
    cx.equal(pro.unitary(), want(), 'steps with their updated parameters')
    cx.equal(sys.frequency, par['f'], 'updates are undone')
    cx.equal(sys.unitary(), free(par['f']), 'the system itself keeps its parameters')


@harness('C13', reload=True, quick=[{'twice': False}, {'twice': True}],
         bounds='one or two updates of two systems')
def updateMany(cx, twice):
    qg = cx.qg
    fa, fb, new = cx.real('fa', nonzero=True), cx.real('fb', nonzero=True), cx.real('new', nonzero=True)
    one, two = qg.Qubit(frequency=fa), qg.Qubit(frequency=fb)
    comp = one + two
    comp.simulation.stepSize = dt = cx.real('dt', positive=True)
    pro = qg.qProtocol(system=comp, steps=[qg.freeEvolution(system=comp)])
    if twice:
        pro.createUpdate(system=[two, one], key='frequency', value=cx.real('first', nonzero=True))
    pro.createUpdate(system=[one, two], key='frequency', value=new)
    cx.equal([s.frequency for s in (one, two)], [fa, fb], 'frequencies before')
    jz, eye = cx.ops.Jz(2, isDim=True), cx.eye(2)
    ham = new*(cx.sp.kron(jz, eye) + cx.sp.kron(eye, jz))
    cx.equal(pro.unitary(), cx.expm(-1j*dt*ham), 'steps with their updated parameters')
    cx.equal([s.frequency for s in (one, two)], [fa, fb], 'updates are undone')


@harness('C13', reload=True, bounds='one or two steps labelled fixed, a change before and after the first reading')
def fixed(cx):
    qg, ops = cx.qg, cx.ops
    freq = cx.real('f', nonzero=True)
    sys = qg.Qubit(frequency=freq)
    sys.simulation.stepSize = dt = cx.real('dt', positive=True)
    evo = qg.freeEvolution(system=sys)
    ang = cx.real('angle', nonzero=True)
    gate = qg.SpinRotation(system=sys, angle=ang, rotationAxis='y')
    gate.fixed = True
    pro = qg.qProtocol(system=sys, steps=[gate, evo])
    if cx.bool('prepare'):
        pro.prepare()
    rot = cx.expm(-1j*ang*ops.Jy(2, isDim=True))

    def free():
        return cx.expm(-1j*(freq*dt)*ops.Jz(2, isDim=True))
    cx.equal(pro.unitary(), free() @ rot, 'a fixed step is created once')
    sys.frequency = freq = cx.real('f2', nonzero=True)
    cx.equal(pro.unitary(), free() @ rot, 'a fixed step keeps its propagator, the others follow')


@harness('C13', reload=True, quick=[{'num': 2, 'kind': k} for k in ('spin', 'x', 'flip')],
         thorough=[{'num': 3, 'kind': k} for k in ('spin', 'x', 'flip')],
         bounds='rotations of every non-empty ordered choice of up to two of 2 (3) sub-systems of dimension 2 (spins: 2, 3), '
                'any axis and phase; then the angle, phase, axis or implementation changes, or a system is added')
def gates(cx, num, kind):
    qg, ops = cx.qg, cx.ops
    if kind == 'spin':
        dims = [cx.choice(f'dim{k}', [2, 3]) for k in range(num)]
        sysl = [qg.Spin(jValue=cx.frac(d-1, 2)) for d in dims]
    else:
        dims = [2]*num
        sysl = [qg.Qubit() for _ in dims]
    comp = sysl[0] + sysl[1]
    for sub in sysl[2:]:
        comp += sub
    first = cx.pick(cx.int('first', 0, num-1))
    second = cx.pick(cx.int('second', 0, num-1))
    on = [first] + ([second] if second != first else [])
    angle = cx.real('angle', nonzero=True)
    axis = cx.choice('axis', ['x', 'y', 'z', 'X'])
    gate = (qg.SpinRotation if kind == 'spin' else qg.xGate)(system=sysl[on[0]], angle=angle, rotationAxis=axis)
    if kind == 'flip':
        gate.implementation = 'flip'
    for k in on[1:]:
        gate.addSys(sysl[k])
    instant = kind == 'flip'
    phase = 1
    if kind == 'x' and cx.bool('phased'):
        phase = gate.phase = cx.real('phase', nonzero=True)

    def want():
        oper = {'x': ops.Jx, 'y': ops.Jy, 'z': ops.Jz}[axis.lower()]
        sig = {'x': ops.sigmax, 'y': ops.sigmay, 'z': ops.sigmaz}[axis.lower()]
        mats = [cx.eye(d) for d in dims]
        for k in on:
            if instant:
                mats[k] = cx.cos(angle/2)*cx.eye(2) - 1j*cx.sin(angle/2)*sig()
            else:
                mats[k] = cx.expm(-1j*phase*angle*oper(dims[k], isDim=True))
        out = mats[0]
        for mat in mats[1:]:
            out = cx.sp.kron(out, mat)
        return out
    if kind != 'spin' or len(on) == 1:
        cx.equal(gate.unitary(), want(), 'rotation of the chosen systems')
    what = cx.choice('op', ['angle', 'axis', 'add'] + (['implementation'] if kind != 'spin' else [])
                     + (['phase'] if not instant else []))
    if what == 'phase':
        phase = gate.phase = cx.real('newPhase', nonzero=True)
    elif what == 'angle':
        gate.angle = angle = cx.real('new', nonzero=True)
    elif what == 'axis':
        axis = cx.choice('newAxis', ['x', 'y', 'z'])
        gate.rotationAxis = axis
    elif what == 'implementation':
        instant = not instant
        gate.implementation = 'instant' if instant else None
    else:
        left = [k for k in range(num) if k not in on]
        if not left:
            return
        gate.addSys(sysl[left[0]])
        on.append(left[0])
    cx.equal(gate.unitary(), want(), 'rotation of the chosen systems')


@harness('C13', reload=True, bounds='one update whose function sets the frequency from its value, any values; two readings with a '
                                    'change in between; a step used twice, the second time by its copy or its adjoint')
def updateFunction(cx):
    qg, ops = cx.qg, cx.ops
    freq = cx.real('f', nonzero=True)
    sys = qg.Qubit(frequency=freq)
    sys.simulation.stepSize = dt = cx.real('dt', positive=True)
    value, scale = cx.real('value', nonzero=True), cx.real('scale', nonzero=True)
    given = cx.bool('given')
    evo = qg.freeEvolution(system=sys)
    pro = qg.qProtocol(system=sys, steps=[evo])

    def change(update):
        for obj in update.subSys.values():
            setattr(obj, update.key, scale*update.value if given else scale)
    pro.createUpdate(system=sys, key='frequency', updateFunction=change, **({'value': value} if given else {}))
    free = lambda f: cx.expm(-1j*(f*dt)*ops.Jz(2, isDim=True))
    want = scale*value if given else scale
    for turn in range(2):
        cx.equal(pro.unitary(), free(want), 'the function of the update sets the parameter')
        cx.equal(sys.frequency, freq, 'updates are undone')
        if turn == 0:
            sys.frequency = freq = cx.real('new', nonzero=True)
    cx.equal(sys.unitary(), free(freq), 'the system itself keeps its parameters')


@harness('C13', reload=True, quick=[{'kind': k} for k in ('free', 'protocol', 'gate', 'nested')],
         bounds='one or two lists of one to three values, swept together or combined, two readings with a change in between')
def dependence(cx, kind):
    qg, ops = cx.qg, cx.ops
    sys, par = system(cx)
    sys.simulation.stepSize = dt = cx.real('dt', positive=True)
    ang = cx.real('angle', nonzero=True)
    gate = qg.SpinRotation(system=sys, angle=ang, rotationAxis='y')
    evo = qg.freeEvolution(system=sys)
    rot = lambda a: cx.expm(-1j*a*ops.Jy(2, isDim=True))
    free = lambda f, g: cx.expm(-1j*dt*ham(cx, dict(par, f=f, g=g)))
    outer = pro = evo
    if kind == 'gate':
        outer = pro = gate
    elif kind == 'protocol':
        outer = pro = qg.qProtocol(system=sys, steps=[gate, evo])
    elif kind == 'nested':
        pro, outer = evo, qg.qProtocol(system=sys, steps=[evo, gate])
    vals = [cx.real(f'v{k}', nonzero=True) for k in range(cx.pick(cx.int('len', 1, 3 if kind == 'free' else 2)))]
    points = [[v, None] for v in vals]
    if kind == 'gate':
        pro.timeDependency.createSweep(system=gate, sweepKey='angle', sweepList=vals)
    else:
        pro.timeDependency.createSweep(system=sys, sweepKey='frequency', sweepList=vals)
        more = 'no' if kind == 'nested' else cx.choice('second', ['no', 'together', 'combined'][:2 if kind == 'protocol' else 3])
        if more != 'no' and len(vals) == 2:
            seconds = [cx.real(f'w{k}', nonzero=True) for k in range(2)]
            pro.timeDependency.createSweep(system=par['term'], sweepKey='frequency', sweepList=seconds,
                                           combinatorial=more == 'combined')
            points = [[v, w] for v in vals for w in seconds] if more == 'combined' else list(zip(vals, seconds))

    def want():
        mats = []
        for first, second in points:
            if kind == 'gate':
                mats.append(rot(first))
                continue
            one = free(first, par['g'] if second is None else second)
            mats += [rot(ang), one] if kind == 'protocol' else [one]
        if kind == 'nested':
            mats.append(rot(ang))
        return product(cx, mats)
    cx.equal(outer.unitary(), want(), 'one propagator per value, in order')
    what = cx.choice('change', ['nothing', 'axis'] if kind == 'gate' else ['nothing', 'term', 'stepSize'][:3 if kind != 'protocol' else 2])
    if what == 'stepSize':
        sys.simulation.stepSize = dt = cx.real('new', positive=True)
    elif what == 'term':
        par['term'].frequency = par['g'] = cx.real('new', nonzero=True)
    elif what == 'axis':
        gate.rotationAxis = 'x'
        rot = lambda a: cx.expm(-1j*a*ops.Jx(2, isDim=True))
    cx.equal(outer.unitary(), want(), 'one propagator per value, in order, after a change')
