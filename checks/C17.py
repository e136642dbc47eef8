"""Open systems: dissipators and baths described by objects give the Lindblad evolution of their current values."""
from symx.harness import harness

ASSUMPTIONS = ['frequencies, rates, temperatures and step sizes are free reals; exponentials of generators that are not '
               'diagonal are uninterpreted, so the check compares generators, step sizes and the order of products']


def lindblad(cx, ham, jumps):
    """column-stacked generator of rho' = -i[H, rho] + sum r (J rho J+ - {J+J, rho}/2)"""
    dim = ham.shape[0]
    eye, kron, ham = cx.eye(dim), cx.sp.kron, cx.dense(ham)
    out = -1j*(cx.dense(kron(eye, ham)) - cx.dense(kron(ham.T, eye)))
    for oper, rate in jumps:
        oper = cx.dense(oper)
        num = cx.dag(oper) @ oper
        out = out + rate*(cx.dense(kron(oper.conj(), oper)) - (cx.dense(kron(eye, num)) + cx.dense(kron(num.T, eye)))/2)
    return out


def conjugation(cx, mat):
    mat = cx.dense(mat)
    return cx.dense(cx.sp.kron(mat.conj(), mat))


def occupation(cx, freq, temp):
    if isinstance(temp, int) and temp == 0:
        return 0
    return 1/(cx.exp(freq/temp) - 1)


class Bath:
    """what is expected of one dissipator"""
    def __init__(self, cx, oper, rate, kind):
        self.cx, self.oper, self.rate, self.kind, self.freq, self.temp = cx, oper, rate, kind, 1, 0

    def effective(self):
        return self.rate*(occupation(self.cx, self.freq, self.temp) + self.kind)


ORDERS = [['system', 'jOper', 'jRate'], ['system', 'jRate', 'jOper'], ['jRate', 'system', 'jOper'],
          ['jOper', 'system', 'jRate'], ['jOper', 'jRate', 'system'], ['jRate', 'jOper', 'system']]
OPS = ['rate', 'temperature', 'operator', 'frequency', 'stepSize', 'kind', 'second', 'bath', 'charFreq', 'cool']


@harness('C17', reload=True, quick=[{'first': op, 'steps': 1} for op in OPS],
         thorough=[{'first': op, 'steps': 2} for op in OPS],
         bounds='one qubit, one or two dissipators given their values in any order, before or after the propagator is '
                'first read, then 1 (thorough 2) changes with the propagator read in between')
def single(cx, first, steps):
    qg, ops = cx.qg, cx.ops
    freq, dt = cx.real('f', nonzero=True), cx.real('dt', positive=True)
    sys = qg.Qubit(frequency=freq)
    sys.simulation.stepSize = dt
    early = cx.bool('readFirst')
    if early:
        cx.equal(sys._freeEvol.unitary(), cx.expm(-1j*dt*freq*ops.Jz(2, isDim=True)), 'closed propagator')
    given = dict(system=sys, jOper=ops.sigmam(), jRate=cx.real('r', positive=True))
    order = cx.choice('order', ORDERS) if not early and first == 'rate' else ORDERS[0 if early else 3]
    kind = cx.choice('kind', [1, 0]) if first in ('temperature', 'kind') else 1
    if cx.bool('keywords'):
        dis = qg.dissipatorObj(**{key: given[key] for key in order})
    else:
        dis = qg.dissipatorObj()
        for key in order:
            setattr(dis, key, given[key])
    dis.type = kind
    all_ = [(dis, Bath(cx, ops.sigmam(), given['jRate'], kind))]
    for step in range(steps+1):
        if step:
            what = first if step == 1 else cx.choice(f'op{step}', OPS)
            new = cx.real(f'v{step}', positive=True)
            obj, exp = all_[-1]
            if what == 'rate':
                obj.jRate = exp.rate = new
            elif what == 'temperature':
                obj.temperature = exp.temp = new
            elif what == 'operator':
                exp.oper = cx.choice(f'jump{step}', [ops.sigmap(), ops.sigmaz(), cx.matrix(f'm{step}', 2)])
                obj.jOper = exp.oper
            elif what == 'frequency':
                sys.frequency = freq = new
            elif what == 'stepSize':
                sys.simulation.stepSize = dt = new
            elif what == 'kind':
                obj.temperature = exp.temp = new
            elif what == 'second':
                exp = Bath(cx, ops.sigmap(), new, 0)
                obj = qg.dissipatorObj(system=sys, jOper=ops.sigmap(), jRate=new, type=0)
                obj.temperature = exp.temp = cx.real(f't{step}', positive=True)
                all_.append((obj, exp))
            elif what == 'cool':
                if cx.bool(f'common{step}'):
                    common = qg.thermalBath()
                    common.dissipator = obj
                    exp.freq = 1
                else:
                    common = obj
                common.temperature = exp.temp = new
                if cx.bool(f'readWarm{step}'):
                    cx.equal(obj.jRate, exp.effective(), 'rate with the thermal occupation')
                    sys._freeEvol.unitary()
                common.temperature = exp.temp = 0
            elif what in ('bath', 'charFreq'):
                common = qg.thermalBath(temperature=new) if what == 'bath' else qg.thermalBath()
                common.dissipator = obj
                exp.temp = new if what == 'bath' else 0
                exp.freq = 1
                if cx.bool(f'readBath{step}'):
                    cx.equal(common.nBar, occupation(cx, 1, exp.temp), 'mean occupation of the bath')
                    sys._freeEvol.unitary()
                if what == 'charFreq':
                    common.charFreq = exp.freq = cx.real(f'c{step}', positive=True)
                    common.temperature = exp.temp = new
                    cx.equal(common.nBar, occupation(cx, exp.freq, exp.temp), 'mean occupation of the bath')
        if step == steps or cx.bool(f'read{step}'):
            gen = lindblad(cx, freq*ops.Jz(2, isDim=True), [(e.oper, e.effective()) for _, e in all_])
            for obj, exp in all_:
                cx.equal(obj.jRate, exp.effective(), 'rate with the thermal occupation')
            cx.equal(sys._freeEvol.unitary(), cx.expm(dt*gen), 'propagator of the current dissipators')



def product(cx, mats):
    out = None
    for mat in mats:
        out = mat if out is None else mat @ out
    return out


@harness('C17', reload=True, quick=[{'where': w} for w in ('protocol', 'step', 'both', 'outer')],
         thorough=[{'where': w, 'deep': True} for w in ('protocol', 'step', 'both', 'outer')],
         bounds='protocols of 1..3 steps (free evolution, rotation, repeated step, nested protocol, fixed steps) with '
                'dissipators of the protocol, of a step or both, one change between readings')
def protocols(cx, where, deep=False):
    qg, ops = cx.qg, cx.ops
    freq, dt, angle = cx.real('f', nonzero=True), cx.real('dt', positive=True), cx.real('angle', nonzero=True)
    sys = qg.Qubit(frequency=freq)
    sys.simulation.stepSize = dt
    evo, gate = qg.freeEvolution(system=sys), qg.SpinRotation(system=sys, angle=angle, rotationAxis='y')
    instant = where == 'step' and cx.bool('instant')
    if instant:
        gate = qg.xGate(system=sys, angle=angle, implementation='instant', rotationAxis='y')
    fixed = cx.bool('fixed')
    evo.fixed = gate.fixed = fixed
    kinds = [['evo'], ['gate', 'evo'], ['evo', 'gate', 'evo'], ['evo', 'gate', 'gate', 'evo']]
    inner = cx.choice('steps', kinds[:(3 if deep else 2) if where == 'outer' else (4 if deep else 3)])
    objs = dict(evo=evo, gate=gate)
    pro = qg.qProtocol(system=sys, steps=[objs[s] for s in inner])
    order = list(inner)
    top = pro
    if where == 'outer':
        gateFirst = cx.bool('gateFirst')
        top = qg.qProtocol(system=sys, steps=[gate, pro] if gateFirst else [pro, gate])
        order = ['gate'] + order if gateFirst else order + ['gate']
    early = not fixed and cx.bool('readFirst')
    if early:
        top.unitary()
    ra, rb = cx.real('ra', positive=True), cx.real('rb', positive=True)
    jumps = []
    if where in ('protocol', 'both', 'outer'):
        one = qg.dissipatorObj(jOper=ops.sigmam(), jRate=ra)
        one.system = sys
        one.addToProtocol(top)
        jumps.append((ops.sigmam(), ra))
    if where in ('step', 'both'):
        two = qg.dissipatorObj(system=sys, jOper=ops.sigmap(), jRate=rb)
        two.addToProtocol(evo)
        jumps.append((ops.sigmap(), rb))
    if fixed:
        top.prepare()
    for step in range(2):
        if step:
            if fixed:
                return
            new = cx.real('new', positive=True)
            what = cx.choice('what', ['rate', 'frequency', 'angle'])
            if what == 'rate':
                if where == 'step':
                    two.jRate = new
                else:
                    one.jRate = new
                jumps[0] = (jumps[0][0], new)
            elif what == 'frequency':
                sys.frequency = freq = new
            else:
                gate.angle = angle = new
        free = cx.expm(dt*lindblad(cx, freq*ops.Jz(2, isDim=True), jumps))
        cos, sin = cx.cos(angle/2), cx.sin(angle/2)
        rot = conjugation(cx, cx.cdense([[cos, -1*sin], [sin, cos]]) if instant else
                          cx.expm(-1j*angle*ops.Jy(2, isDim=True)))
        cx.equal(top.unitary(), product(cx, [dict(evo=free, gate=rot)[s] for s in order]),
                 'ordered product of the current open steps')


@harness('C17', reload=True, quick=[{'dims': (2, 2), 'part': 0}, {'dims': (2, 2), 'part': 1}, {'dims': (3, 2), 'part': 0},
                                    {'dims': (3, 2), 'part': 1}],
         thorough=[{'dims': (3, 3), 'part': 0}, {'dims': (2, 4), 'part': 1}, {'dims': (2, 2, 2), 'part': 1}],
         bounds='composites of 2 subsystems of dimension 2..3 (thorough ..4, or 3 of dimension 2) with a dissipator on a '
                'part, optionally one on another part, attached before or after the composite is formed')
def composite(cx, dims, part):
    qg, ops = cx.qg, cx.ops
    freqs = [cx.real(f'f{k}', nonzero=True) for k in range(len(dims))]
    dt = cx.real('dt', positive=True)
    subs = [qg.Qubit(frequency=f) if d == 2 else qg.Cavity(dimension=d, frequency=f) for d, f in zip(dims, freqs)]
    before = cx.bool('before')
    jump = cx.matrix('j', dims[part]) if dims[part] == 2 else ops.destroy(dims[part])
    rate = cx.real('r', positive=True)
    if before:
        dis = qg.dissipatorObj(system=subs[part], jOper=jump, jRate=rate)
    comp = qg.QuantumSystem()
    for sub in subs:
        comp.addSubSys(sub)
    comp.simulation.stepSize = dt
    if not before:
        dis = qg.dissipatorObj(system=subs[part], jOper=jump, jRate=rate)
    dis.addToProtocol(comp._freeEvol)

    def embed(oper, ind):
        out = cx.eye(1)
        for k, dim in enumerate(dims):
            out = cx.sp.kron(out, oper if k == ind else cx.eye(dim))
        return out
    jumps = [(embed(jump, part), rate)]
    if cx.bool('another'):
        oth = (part + 1) % len(dims)
        rate2 = cx.real('r2', positive=True)
        two = qg.dissipatorObj(system=subs[oth], jOper=ops.destroy(dims[oth]), jRate=rate2)
        two.addToProtocol(comp._freeEvol)
        jumps.append((embed(ops.destroy(dims[oth]), oth), rate2))
    ham = None
    for k, (dim, freq) in enumerate(zip(dims, freqs)):
        term = freq*embed(ops.Jz(2, isDim=True) if dim == 2 else ops.number(dim), k)
        ham = term if ham is None else ham + term
    cx.equal(comp._freeEvol.unitary(), cx.expm(dt*lindblad(cx, ham, jumps)), 'jump operators act on their part')


@harness('C17', reload=True, quick=[{'how': h} for h in ('free', 'protocol', 'sweep', 'term')],
         bounds='qubit simulations of 1..2 steps from a ket or a density matrix, with sweeps of 2 rates or temperatures, '
                'or a time-dependent term')
def simulate(cx, how):
    qg, ops = cx.qg, cx.ops
    freq, dt, rate = cx.real('f', nonzero=True), cx.real('dt', positive=True), cx.real('r', positive=True)
    sys = qg.Qubit(frequency=freq)
    dis = qg.dissipatorObj(system=sys, jOper=ops.sigmam(), jRate=rate)
    steps = cx.pick(cx.int('steps', 1, 2))
    if cx.bool('mixed'):
        start = cx.matrix('rho', 2)
        rho = cx.dense(start)
    else:
        start = cx.ket('psi', 2)
        rho = cx.dense(start) @ cx.dag(cx.dense(start))
    sim = sys.simulation
    sys.initialState = start
    sim.stepSize = dt
    sim.stepCount = steps
    jz, jx = ops.Jz(2, isDim=True), ops.Jx(2, isDim=True)
    name = sys.name
    if how == 'protocol':
        angle = cx.real('angle', nonzero=True)
        evo, gate = qg.freeEvolution(system=sys), qg.SpinRotation(system=sys, angle=angle, rotationAxis='y')
        pro = qg.qProtocol(system=sys, steps=[gate, evo])
        sim.addSubSys(sys, pro)
        dis.addToProtocol(pro)
        name = pro.name
    elif how == 'term':
        amp = cx.real('amp', nonzero=True)
        term = sys.createTerm(operator=ops.Jx, frequency=cx.real('start', nonzero=True))
        term.timeDependency = lambda term, time: setattr(term, 'frequency', amp*time)
    elif how == 'sweep':
        vals = [cx.real(f'v{k}', positive=True) for k in range(2)]
        key = cx.choice('key', ['jRate', 'temperature'])
        cx.assume(vals[0] != vals[1])
        if key == 'temperature':
            # true of different temperatures, but the solver does not know that exp is injective
            cx.assume(cx.exp(1/vals[0]) != cx.exp(1/vals[1]))
        sim.Sweep.createSweep(system=dis, sweepKey=key, sweepList=vals)

    def prop(k, rate=rate, temp=0):
        gen = lindblad(cx, freq*jz + (amp*((k+1)*dt)*jx if how == 'term' else 0*jz),
                       [(ops.sigmam(), rate*(occupation(cx, 1, temp) + 1))])
        out = cx.expm(dt*gen)
        return out @ conjugation(cx, cx.expm(-1j*angle*ops.Jy(2, isDim=True))) if how == 'protocol' else out

    def history(**kwargs):
        vec = cx.cdense([[rho[i, j]] for j in range(2) for i in range(2)])
        out = [vec]
        for k in range(steps):
            vec = prop(k, **kwargs) @ vec
            out.append(vec)
        return [cx.cdense([[v[i + 2*j, 0] for j in range(2)] for i in range(2)]) for v in out]

    def same(got, want):
        cx.equal(len(got), len(want), 'number of states')
        for g, w in zip(got, want):
            cx.equal(g, w, 'states of the open evolution')
    for _ in range(2):
        sys.runSimulation()
        got = sim.states[name + 'Results']
        if how == 'sweep':
            cx.equal(len(got), 2, 'one history per swept value')
            for states, val in zip(got, vals):
                same(states, history(**({'rate': val} if key == 'jRate' else {'temp': val})))
        else:
            same(got, history())
