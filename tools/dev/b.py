T='QuantumToolbox/'
SEEDS=[
dict(id='b10-setdefault-alias', prop='C10', edits=[('classes/base.py','''        return any(it == other for it in self._aliasClass__members())                #pylint''','''        if isinstance(other, str) and other.startswith('_'):
            return self.name == other
        return any(it == other for it in self._aliasClass__members())                #pylint''')],
 needs='an alias that starts with an underscore', breaks='objects are not found by aliases that look like internal names',
 demo='''
import quanguru as qg
q = qg.Qubit(frequency=1, alias='_probe')
c = qg.QuantumSystem(subSys=[q])
assert c.subSys.get('_probe') is q
'''),
dict(id='b11-removed-before', prop='C11', edits=[('classes/QSystem.py','''            subSys._dimsAfter = 1
            subSys._dimsBefore = 1
            subSys.delMatrices''','''            subSys._dimsAfter = 1
            subSys.delMatrices''')],
 needs='removing a sub-system that is not the first and using it on its own', breaks='the removed system keeps the dimensions before it',
 demo='''
import quanguru as qg
a, b = qg.Qubit(frequency=1), qg.Cavity(dimension=3, frequency=1)
c = qg.QuantumSystem(subSys=[a, b])
c.removeSubSys(b)
assert b.totalHamiltonian.shape == (3, 3), b.totalHamiltonian.shape
'''),
dict(id='b13-rotation-order', prop='C13', edits=[('classes/QGates.py','''        for sys in self.subSys''','''        for sys in self.subSys''')] if False else [('classes/QGates.py','''                flipUn = evolution.Unitary(self.phase*self.angle*flipOpN) @ flipUn''','''                flipUn = evolution.Unitary(self.angle*flipOpN) @ flipUn''')],
 needs='a rotation of two or more systems with a phase other than one', breaks='only the first of the rotated systems gets the phase',
 demo='''
import numpy as np
import quanguru as qg
a, b = qg.Qubit(frequency=1), qg.Qubit(frequency=1)
c = qg.QuantumSystem(subSys=[a, b])
r = qg.SpinRotation(system=[a, b], angle=0.7, rotationAxis='x')
r.phase = 2
s = qg.SpinRotation(system=[a, b], angle=1.4, rotationAxis='x')
assert np.allclose(r.unitary().A, s.unitary().A)
'''),
dict(id='b14-sweep-held', prop='C14', edits=[('classes/QSweep.py','''        self._sweepIndex = ind-1 # pylint: disable=assigning-non-slot
        self._updateBase__function(self)''','''        if ind > 0 and self._sweepIndex == ind-1:
            return # the value of a slower sweep is still set
        self._sweepIndex = ind-1 # pylint: disable=assigning-non-slot
        self._updateBase__function(self)''')],
 needs='two combinatorial sweeps, the faster one changing the swept attribute of the slower', breaks='the slower sweep does not set its value again at every point',
 demo='''
import numpy as np
import quanguru as qg
q = qg.Qubit(frequency=1, operator=qg.QuantumToolbox.operators.Jx)
q.initialState = 0
q.simTotalTime, q.simStepSize = 1, 0.5
seen = []
def add(sweep):
    q.frequency = q.frequency + sweep.sweepList[sweep.index]
q.simulation.Sweep.createSweep(system=q, sweepKey='frequency', sweepList=[1., 2.], combinatorial=True)
s = q.simulation.Sweep.createSweep(system=q, sweepKey='frequency', sweepList=[10., 20.], combinatorial=True)
s.sweepFunction = add
q.simulation.preCompute = lambda sim: seen.append(q.frequency)
q.runSimulation()
assert seen == [11., 21., 12., 22.], seen
'''),
dict(id='b15-average', prop='C15', edits=[('classes/QRes.py','''            avg = ((counter*val) + keyValList[1])/(counter + 1)
            self._qResBase__average[keyValList[0]] = [avg, counter+1] # pylint: disable=no-member''','''            avg = val + (keyValList[1] - val)/(counter + 1)
            self._qResBase__average[keyValList[0]] = [avg, 2] # pylint: disable=no-member''')],
 needs='averaging four or more values', breaks='averages of more than three values weigh the late ones too much',
 demo='''
import quanguru as qg
q = qg.Qubit(frequency=1)
for v in (1., 2., 3., 6.):
    q.qRes.resAverage = 'a', v
assert abs(q.qRes.resultsDict['a'] - 3) < 1e-12, q.qRes.resultsDict['a']
'''),
dict(id='b16-samples', prop='C16', edits=[('classes/QSimBase.py','''        setAttrParam(self, '_timeBase__samples', num)''','''        self._timeBase__samples.value = num''')],
 needs='changing the number of samples after a propagator was read', breaks='propagators keep the old time step',
 demo='''
import numpy as np
import quanguru as qg
q = qg.Qubit(frequency=1)
q.simStepSize = 1
u = q.unitary().A.copy()
q.simSamples = 2
v = q.unitary().A
assert np.allclose(v @ v, u)
'''),
dict(id='b17-vec-order', prop='C17', edits=[('classes/modularSweep.py','''            protocol.currentState = vec2Mat(state)''','''            protocol.currentState = state.reshape(protocol.currentState.shape)''')],
 needs='an open system whose density matrix is not symmetric', breaks='the states of open simulations are transposed at every step',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.classes.environment import dissipatorObj
from quanguru.QuantumToolbox import operators as ops, evolution
from quanguru.QuantumToolbox.states import mat2Vec, vec2Mat, densityMatrix
q = qg.Qubit(frequency=1)
q.initialState = [0, 1]
q.simTotalTime, q.simStepSize = 1, 0.5
d = dissipatorObj(system=q, jOper=ops.sigmam(), jRate=0.3)
states = q.runSimulation()
rho = densityMatrix(q.initialState)
prop = evolution.LiouvillianExp(q.totalHamiltonian, 0.5, [ops.sigmam()], [0.3])
for st in states[1:]:
    rho = vec2Mat(prop @ mat2Vec(rho))
    assert np.allclose(st.A, rho.A)
'''),
dict(id='b19-second-system', prop='C19', edits=[('classes/modularSweep.py','''            protocol.currentState = state

''','''            protocol.currentState = state
        else:
            protocol.currentState = None
''') if False else ('classes/modularSweep.py','''    calledFor = []
    for protocol, qsystem in qSim.subSys.items():
        if qsystem not in calledFor:
            qsystem._computeBase__calculate("post") # pylint: disable=protected-access
            calledFor.append(qsystem)
''','''    for protocol, qsystem in qSim.subSys.items():
        if qsystem is not qSim.superSys:
            qsystem._computeBase__calculate("post") # pylint: disable=protected-access
    if qSim.superSys is not None:
        qSim.superSys._computeBase__calculate("post") # pylint: disable=protected-access
''')],
 needs='two protocols of one system in one simulation and a post compute of the system', breaks='the post compute of the system is called once per protocol',
 demo='''
import quanguru as qg
q = qg.Qubit(frequency=1)
q.initialState = 0
seen = []
q.postCompute = lambda sys: seen.append(1)
one, two = qg.freeEvolution(system=q), qg.freeEvolution(system=q)
sim = qg.Simulation()
sim.addProtocol(one, q)
sim.addProtocol(two, q)
sim.totalTime, sim.stepSize = 1, 0.5
sim.run()
assert seen == [1], seen
'''),
dict(id='b25-comp-sum-self', prop='C25', edits=[('classes/QSystem.py',"""            newComp = QuantumSystem(subSys=[self, other.copy() if (other is self) else other])""","""            newComp = QuantumSystem(subSys=[self, other.copy() if (other is self and not self._isComposite) else other])""")],
 needs='adding a composite system to itself', breaks='the sum of a composite system with itself contains it once',
 demo='''
import numpy as np
import quanguru as qg
c = qg.QuantumSystem(subSys=[qg.Qubit(frequency=1), qg.Qubit(frequency=2)])
d = c + c
assert d.dimension == 16, d.dimension
'''),
dict(id='b08-concurrence', prop='C08', edits=[(T+'functions.py','''    magicConj = SySy @ state.conj() @ SySy
    R =''','''    magicConj = SySy @ hc(state) @ SySy
    R =''')],
 needs='a two-qubit state with complex coherences', breaks='the concurrence of states with complex entries',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox.functions import concurrence
k = np.array([[1], [0], [0], [1j]])/np.sqrt(2)
l = np.array([[0.6], [0.8j], [0], [0]])
assert abs(concurrence(k) - 1) < 1e-6 and abs(concurrence(l)) < 1e-6, (concurrence(k), concurrence(l))
k = np.array([[1], [1j], [1j], [1]])/2
assert abs(concurrence(k) - 1) < 1e-6, concurrence(k)
'''),
dict(id='b09-empty-collapse', prop='C09', edits=[(T+'evolution.py','''    if isinstance(collapseOperators, list):
        liouvillian = Liouvillian(''','''    if collapseOperators:
        liouvillian = Liouvillian(''')],
 needs='an open evolution without collapse operators', breaks='the propagator is a unitary instead of a super-operator',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox import operators as ops, evolution
rho = np.array([[.5, .2], [.2, .5]])
out = evolution.evolveOpen(rho, 1., 0.5, ops.sigmaz(sparse=False))
assert len(out) == 3 and np.allclose(np.trace(out[-1]), 1)
'''),
dict(id='b21-boltzmann', prop='C21', edits=[(T+'thermodynamics.py','''    return 1.0 / (exp((hbar*angFreq) / (temp*kb)) - 1)''','''    return 1.0 / (exp((hbar*angFreq) / temp*kb) - 1)''')],
 needs='a Boltzmann constant other than one', breaks='thermal occupation scales the wrong way with the Boltzmann constant',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox.thermodynamics import nBarThermal
assert np.isclose(nBarThermal(1., 2., 1., 0.5), 1/(np.exp(1.) - 1))
'''),
dict(id='b07-mixture', prop='C07', edits=[(T+'states.py','''    return normalise(weightedSum([linAlOuterProd(k) for k in ket], probability)) if libool else linAlOuterProd(ket)''','''    if libool and probability is not None:
        return weightedSum([linAlOuterProd(k) for k in ket], probability)
    return normalise(weightedSum([linAlOuterProd(k) for k in ket])) if libool else linAlOuterProd(ket)''')],
 needs='a mixture with weights that do not sum to one', breaks='mixtures with relative weights are not normalised',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox.states import densityMatrix, basis
rho = densityMatrix([basis(2, 0), basis(2, 1)], [1, 3])
assert np.isclose(rho.A[1, 1], .75), rho.A
'''),
dict(id='b23-wigner', prop='C23', edits=[], needs='', breaks='', demo='') if False else
dict(id='b05-null-rate', prop='C05', edits=[(T+'evolution.py','''            if decayRates is None:
                liouvillian = liouvillian + collapsePart
            elif len(decayRates) != 0:
                liouvillian = liouvillian + decayRates[idx]*collapsePart''','''            if not decayRates or sum(decayRates) == 0:
                liouvillian = liouvillian + collapsePart
            elif len(decayRates) != 0:
                liouvillian = liouvillian + decayRates[idx]*collapsePart''')] ,
 needs='decay rates that are all zero', breaks='vanishing rates are treated as unit rates',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox import operators as ops, evolution
l = evolution.Liouvillian(0*ops.sigmaz(), [ops.sigmam()], [0.])
assert abs(l).sum() == 0
'''),
]
