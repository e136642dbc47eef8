"""Discarding cached matrices: a pure matter of memory, never of results."""
from symx.harness import harness

ASSUMPTIONS = ['frequencies, angles and step sizes are free reals; non-diagonal exponentials are uninterpreted functions']


class World:
    """two systems with a coupling, a protocol of three steps, and what each object has to give"""
    def __init__(self, cx, nested, given, owner='simulation'):
        qg, ops = cx.qg, cx.ops
        self.cx = cx
        self.par = {key: cx.real(key, nonzero=True) for key in ('f1', 'f2', 'g', 'angle')}
        self.par['dt'] = cx.real('dt', positive=True)
        self.one = qg.Qubit(frequency=self.par['f1'])
        self.two = qg.Cavity(dimension=2, frequency=self.par['f2'])
        self.comp = qg.QuantumSystem(subSys=[self.one, self.two])
        self.top = self.comp
        if nested:
            self.top = qg.QuantumSystem()
            self.top.addSubSys(self.comp)
            self.top.addSubSys(qg.Qubit(frequency=0))
        self.nested = nested
        self.coup = self.comp.createTerm(operator=[ops.sigmax, ops.number], frequency=self.par['g'],
                                         qSystem=[self.one, self.two])
        self.gate = qg.SpinRotation(system=self.one, angle=self.par['angle'], rotationAxis='y')
        self.free = qg.freeEvolution(system=self.top)
        self.inner = qg.qProtocol(system=self.top, steps=[self.gate])
        self.pro = qg.qProtocol(system=self.top, steps=[self.free, self.gate, self.inner])
        self.sim = self.top.simulation
        self.sim.addProtocol(self.pro)
        self.owner = {'simulation': self.sim, 'protocol': self.pro.simulation, 'part': self.sim}[owner]
        if owner != 'simulation':
            self.sim.stepSize = cx.real('dtSim', positive=True)
        if owner == 'part':
            self.one.simulation.stepSize = cx.real('dtPart', positive=True)
        self.owner.stepSize = self.par['dt']
        self.given, self.reverse = given, False
        dims = [2, 2] + ([2] if nested else [])
        self.dims = dims
        if given == 'parts':
            self.one.initialState = 1
            self.two.initialState = 0
            if nested:
                list(self.top.subSys.values())[1].initialState = 1
            self.state = self.unit(2*(2 if nested else 1) + (1 if nested else 0))
        elif given == 'list':
            self.top.initialState = [[1, 0], 1] if nested else [1, 0]
            self.state = self.unit(5 if nested else 2)
        elif given in ('matrix', 'array', 'again'):
            self.give(given)
        elif given == 'simulation':
            self.sim.initialState = [[0, 1], 0] if nested else [0, 1]
            self.state = self.unit(2 if nested else 1)

    def give(self, how):
        if how == 'again':
            self.top.initialState = [[1, 1], 1] if self.nested else [1, 1]
        amps = [self.cx.complex(f'a{k}') for k in range(4)]
        amps = amps + [0]*4 if self.nested else amps
        self.state = self.cx.cdense([[a] for a in amps])
        self.top.initialState = self.cx.mat([[a] for a in amps], how == 'matrix')

    def unit(self, ind):
        dim = 8 if self.nested else 4
        return self.cx.mat([[1 if k == ind else 0] for k in range(dim)])

    def embed(self, mats):
        res = self.cx.eye(1)
        for ind, dim in enumerate(self.dims):
            res = self.cx.sp.kron(res, mats.get(ind, self.cx.eye(dim)))
        return res

    def ham(self):
        ops, par = self.cx.ops, self.par
        return par['f1']*self.embed({0: ops.Jz(2, isDim=True)}) + par['f2']*self.embed({1: ops.number(2)}) \
            + par['g']*self.embed({0: ops.sigmax(), 1: ops.number(2)})

    def rotation(self):
        return self.embed({0: self.cx.expm(-1j*self.par['angle']*self.cx.ops.Jy(2, isDim=True))})

    def freeU(self):
        return self.cx.expm(-1j*self.par['dt']*self.ham())

    def read(self, what, label):
        cx = self.cx
        if what == 'hamiltonians':
            cx.equal(self.top.totalHamiltonian, self.ham(), label + 'total Hamiltonian')
            cx.equal(self.one.totalHamiltonian, self.par['f1']*self.embed({0: cx.ops.Jz(2, isDim=True)}),
                     label + 'Hamiltonian of a part')
            cx.equal(self.coup.totalHamiltonian,
                     self.par['g']*self.embed({0: cx.ops.sigmax(), 1: cx.ops.number(2)}), label + 'coupling')
        elif what == 'propagators':
            cx.equal(self.pro.unitary(), self.rotation() @ self.rotation() @ self.freeU(), label + 'protocol')
            cx.equal(self.gate.unitary(), self.rotation(), label + 'gate')
            cx.equal(self.free.unitary(), self.freeU(), label + 'free evolution')
        elif what == 'states':
            if self.reverse:
                cx.equal(self.pro.simulation.initialState, self.state, label + 'initial state of the protocol')
            if self.given != 'simulation':
                cx.equal(self.top.initialState, self.state, label + 'initial state')
            cx.equal(self.sim.initialState, self.state, label + 'initial state of the simulation')
            cx.equal(self.pro.simulation.initialState, self.state, label + 'initial state of the protocol')

    def everything(self, label):
        for what in ('hamiltonians', 'propagators', 'states'):
            self.read(what, label)

    def discard(self, what):
        {'part': self.one, 'other part': self.two, 'composite': self.comp, 'top': self.top, 'coupling': self.coup,
         'term': list(self.one.terms.values())[0], 'gate': self.gate, 'free evolution': self.free,
         'inner protocol': self.inner, 'protocol': self.pro, 'simulation': self.sim,
         'protocol simulation': self.pro.simulation}[what].delMatrices(_exclude=[])

    def change(self, what):
        new = self.cx.real('new', nonzero=True)
        if what == 'nothing':
            return
        self.par[what] = new
        if what == 'f1':
            self.one.frequency = new
        elif what == 'f2':
            self.two.frequency = new
        elif what == 'g':
            self.coup.frequency = new
        elif what == 'angle':
            self.gate.angle = new
        else:
            self.par['dt'] = self.owner.stepSize = self.cx.real('newStep', positive=True)


TARGETS = ['part', 'other part', 'composite', 'top', 'coupling', 'term', 'gate', 'free evolution', 'inner protocol',
           'protocol', 'simulation', 'protocol simulation']
GIVEN = ['parts', 'list', 'matrix', 'simulation', 'array', 'again']


@harness('C18', reload=True, quick=[{'target': t} for t in TARGETS],
         bounds='one read, one discard of the matrices of any object, one change before or after it; flat and nested')
def discarding(cx, target):
    world = World(cx, cx.bool('nested'), 'list', cx.choice('owner', ['simulation', 'protocol']))
    before = cx.choice('before', ['nothing', 'all'])
    if before == 'all':
        world.everything('before: ')
    change = cx.choice('change', ['nothing', 'f1', 'f2', 'g', 'angle', 'dt'])
    if change != 'nothing' and cx.bool('changeFirst'):
        world.change(change)
        world.discard(target)
    else:
        world.discard(target)
        world.change(change)
    world.everything('after: ')


@harness('C18', reload=True, quick=[{'given': g} for g in GIVEN],
         bounds='the same for initial states given in every way, read or not before, discarded once or twice')
def states(cx, given):
    world = World(cx, cx.bool('nested'), given, cx.choice('owner', ['simulation', 'protocol', 'part']))
    if cx.bool('read'):
        world.read('states', 'before: ')
    target = cx.choice('target', ['part', 'top', 'protocol', 'simulation', 'protocol simulation'])
    world.discard(target)
    if given == 'list' and cx.bool('anew'):
        world.give('array')
        if cx.bool('thenDiscarded'):
            world.discard(target)
    if cx.bool('twice'):
        if cx.bool('between'):
            world.read('states', 'between: ')
        else:
            world.reverse = cx.bool('reverse')
        world.discard(cx.choice('again', ['top', 'simulation']))
    world.read('states', 'after: ')


@harness('C18', reload=True, quick=[{'when': w} for w in ('compute', 'preCompute', 'between', 'postCompute')],
         bounds='two simulations of two steps, with the matrices of any object discarded in each step, before the '
                'evolution, after it or between the simulations')
def running(cx, when):
    world = World(cx, False, 'list')
    target = cx.choice('target', ['part', 'top', 'coupling', 'gate', 'protocol', 'simulation', 'protocol simulation'])
    sim = world.sim
    sim.stepSize = world.par['dt'] = cx.frac(1, 2)
    sim.stepCount = 2
    sim.delStates = False

    def compute(obj, *args):
        world.discard(target)
    if when != 'between':
        setattr(cx.choice('obj', [world.pro, sim]), when, compute)

    def compare(label):
        got = sim.states[world.pro.name + 'Results']
        step = world.rotation() @ world.rotation() @ world.freeU()
        want = [world.state]
        for _ in range(len(got) - 1):
            want.append(step @ want[-1])
        cx.check(len(got) == 3, label + 'number of states')
        for one, two in zip(got, want):
            cx.equal(one, two, label + 'states')
    sim.run()
    compare('first run: ')
    if when == 'between':
        world.discard(target)
    if cx.bool('change'):
        world.change(cx.choice('what', ['g', 'angle']))
    sim.run()
    compare('second run: ')
