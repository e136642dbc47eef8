C='classes/'
SEEDS=[
dict(id='b29-order-one', prop='C29', edits=[(C+'QSys.py','''        if self._paramBoundBase__matrix is not None: # pylint: disable=no-member
            self.freeMat = None

    @property
    def frequency''','''        if self._paramBoundBase__matrix is not None and ordVal != 1: # pylint: disable=no-member
            self.freeMat = None

    @property
    def frequency''')],
 needs='the order of a legacy term set back to one after its matrix was used', breaks='the matrix of the higher power stays',
 demo='''
import numpy as np
import quanguru as qg
c = qg.CavityOld(dimension=4, frequency=1.)
first = c.totalHam.toarray()
c.order = 2
assert np.allclose(c.totalHam.toarray(), first @ first)
c.order = 1
assert np.allclose(c.totalHam.toarray(), first)
'''),
dict(id='b17-char-freq', prop='C17', edits=[(C+'environment.py','''        if self._paramUpdated:
            setAttr(self, '_thermalBath__nbar', nBarThermal(self.charFreq, self.temperature))
            self._paramBoundBase__paramUpdated = False # pylint:disable=assigning-non-slot
        return''','''        if self._paramUpdated and self.temperature != 0:
            setAttr(self, '_thermalBath__nbar', nBarThermal(self.charFreq, self.temperature))
            self._paramBoundBase__paramUpdated = False # pylint:disable=assigning-non-slot
        return''')],
 needs='a bath cooled to temperature zero after it was used at another', breaks='the occupation of the old temperature stays',
 demo='''
import numpy as np
import quanguru as qg
q = qg.Qubit(frequency=1.)
import quanguru.classes.environment as env
d = env.dissipatorObj(system=q, jOper=qg.QuantumToolbox.operators.sigmam(), jRate=0.5)
d.temperature = 2.
warm = d.jRate
d.temperature = 0
assert warm > d.jRate
assert abs(d.jRate - 0.5) < 1e-12, d.jRate
'''),
dict(id='b15-blank-calculated', prop='C15', edits=[(C+'QRes.py','''        for sys in self.allResults.values():
            newQRes = qResBlank()''','''        for sys in self.allResults.values():
            if not (sys._qResBase__resultsLast or sys._qResBase__statesLast): # nothing to return from the process
                continue
            newQRes = qResBlank()''')],
 needs='a run in a pool where an object only has calculated values', breaks='the calculated values of objects without results or states are lost',
 demo='''
import multiprocessing
import quanguru as qg
from functools import partial

def calc(sys):
    sys.qRes.calculated = ('f', sys.frequency)

class Pool:
    def map(self, func, inds, chunksize=1):
        return [func(i) for i in inds]

def forked(num):
    q = qg.Qubit(frequency=1.)
    q.initialState = 0
    q.simTotalTime, q.simStepSize, q.simDelStates = 1., 0.5, True
    q.preCompute = calc
    q.simulation.Sweep.createSweep(system=q, sweepKey='frequency', sweepList=[1., 2., 3.])
    if num:
        with multiprocessing.get_context('fork').Pool(1) as pool:
            q.simulation.run(p=pool)
    else:
        q.simulation.run()
    return list(q.qRes.calculated['f'])

one, two = forked(0), forked(1)
assert one == two == [1., 2., 3.], (one, two)
'''),
dict(id='b19-some-samples', prop='C19', edits=[(C+'modularSweep.py','''            if any((step.simulation.samples > 1 for step in protocol.steps.values())):
                protocol.stepSample = True''','''            samples = [step.simulation.samples for step in protocol.steps.values()]
            if samples and min(samples) > 1:
                protocol.stepSample = True''')],
 needs='a protocol with samples for some of its steps only', breaks='the steps are applied once, for their time over the number of samples',
 demo='''
import numpy as np
import quanguru as qg
q = qg.Qubit(frequency=1.)
q.initialState = [0, 1]
q.simTotalTime, q.simStepSize = 1., 0.5
a, b = qg.freeEvolution(system=q), qg.freeEvolution(system=q)
p = qg.qProtocol(system=q, steps=[a, b])
sim = qg.Simulation(totalTime=1., stepSize=0.5)
sim.addProtocol(p, q)
b.simSamples = 2
sim.run()
s = list(sim.states.values())[0]
u = qg.QuantumToolbox.evolution.Unitary(q.totalHamiltonian, 1.)
assert np.allclose((u @ q.initialState).toarray(), s[1].toarray() if hasattr(s[1], 'toarray') else s[1])
'''),
dict(id='b13-adjoint-cached', prop='C13', edits=[(C+'baseClasses.py','''        self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix) # pylint: disable=assigning-non-slot
        return''','''        if self._paramBoundBase__matrixHc is None or self._paramUpdated:
            self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix) # pylint: disable=assigning-non-slot
        return''')],
 needs='an adjoint step whose parameters change after its propagator was used', breaks='the adjoint of the old propagator is used',
 demo='''
import numpy as np
import quanguru as qg
q = qg.Qubit(frequency=1.)
q.simStepSize = 0.5
a = qg.freeEvolution(system=q)
p = qg.qProtocol(system=q, steps=[a, a.hc])
def near(m): return np.allclose(m.toarray() if hasattr(m, 'toarray') else m, np.eye(2))
assert near(p.unitary())
q.frequency = 2.
assert near(p.unitary())
'''),
dict(id='b12-power-first', prop='C12', edits=[(C+'QTerms.py','''            for ind, ter in enumerate(self.subSys.values()):
                setAttr(ter, attrName, vals[ind])
''','''            for ind, ter in enumerate(self.subSys.values()):
                if (attrName == '_QTerm__order') and (vals[ind] < 2) and (not self._paramUpdated):
                    continue # powers below two need no new matrices
                setAttr(ter, attrName, vals[ind])
''')],
 needs='the orders of a coupling set back after its Hamiltonian was used', breaks='the old power stays',
 demo='''
import numpy as np
import quanguru as qg
ops = qg.QuantumToolbox.operators
a, b = qg.Cavity(dimension=3, frequency=1.), qg.Cavity(dimension=3, frequency=1.)
s = qg.QuantumSystem(subSys=[a, b])
t = s.createTerm(operator=[ops.create, ops.destroy], frequency=1., qSystem=[a, b])
first = s.totalHamiltonian.toarray()
t.order = [2, 2]
assert not np.allclose(s.totalHamiltonian.toarray(), first)
t.order = [1, 1]
assert np.allclose(s.totalHamiltonian.toarray(), first)
'''),
dict(id='b25-copy-order', prop='C25', edits=[(C+'QTerms.py','''        newSys.order = [1 for _ in qSystem] if (isinstance(qSystem, (list, tuple)) and (order is None)) else order
''','''        newSys.order = [1 for _ in qSystem] if (isinstance(qSystem, (list, tuple)) and not isinstance(order, list)) else order
''')],
 needs='copying a composite whose coupling was given its orders as a tuple', breaks='the copy has orders one',
 demo='''
import numpy as np
import quanguru as qg
ops = qg.QuantumToolbox.operators
a, b = qg.Cavity(dimension=3, frequency=1.), qg.Cavity(dimension=3, frequency=1.)
s = qg.QuantumSystem(subSys=[a, b])
t = s.createTerm(operator=[ops.create, ops.destroy], frequency=1., qSystem=[a, b])
t.order = (2, 2)
c = s.copy()
assert np.allclose(c.totalHamiltonian.toarray(), s.totalHamiltonian.toarray())
'''),
dict(id='b10-update-pairs', prop='C10', edits=[(C+'base.py','''        if hasattr(mapping, "keys"):
            for k in mapping:
                self[k] = mapping[k]
        else:''','''        if isinstance(mapping, dict):
            super().update(mapping)
        else:''')],
 needs='updating a dictionary of objects by a dictionary with aliases as keys', breaks='a second entry is made for the alias',
 demo='''
import quanguru.classes.base as base
obj = base.named()
obj.alias = 'other'
d = base.aliasDict()
d[obj.name] = 1
d.update({'other': 2})
assert len(d) == 1 and d[obj.name] == 2, dict(d)
'''),
dict(id='b29-operator-inside', prop='C29', edits=[(C+'QSys.py','''        self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
        setAttr(self, '_termTimeDep__operator', op)''','''        setAttr(self, '_termTimeDep__operator', op)
        if self.superSys is not None and self.superSys.superSys is None: # pylint: disable=no-member
            self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot''')],
 needs='the operator of a legacy system in a composite changed after its Hamiltonian was used', breaks='the old operator stays',
 demo='''
import numpy as np
import quanguru as qg
ops = qg.QuantumToolbox.operators
a, b = qg.QubitOld(frequency=1.), qg.QubitOld(frequency=2.)
s = qg.compQSystem()
s.addSubSys(a), s.addSubSys(b)
s.totalHam
a.operator = ops.sigmax
assert np.allclose(a.totalHam.toarray(), np.kron(ops.sigmax().toarray(), np.eye(2)))
'''),
]
