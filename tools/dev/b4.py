C='classes/'
SEEDS=[
dict(id='b30-other-systems', prop='C30', edits=[(C+'QSim.py','''            if qsys not in self.qSystems:
                self.removeSweep(qsys)''','''            if not self.qSystems:
                self.removeSweep(qsys)''')],
 needs='a sweep of a system whose last protocol is removed or replaced while other systems stay', breaks='the sweep of a system that is no longer simulated stays',
 demo='''
import quanguru as qg
a, b = qg.Qubit(frequency=1.), qg.Qubit(frequency=2.)
a.initialState = b.initialState = 0
pro = qg.qProtocol(system=a, steps=[qg.freeEvolution(system=a)])
sim = qg.Simulation()
sim.addProtocol(pro)
sim.addSubSys(b)
sim.stepSize = 0.1
sim.stepCount = 2
sim.Sweep.createSweep(system=a, sweepKey='frequency', sweepList=[1., 2., 3.])
sim.removeProtocol(pro)
assert len(sim.Sweep.sweeps) == 0
sim.run()
assert len(sim.states[b.name + 'Results']) == 3
'''),
dict(id='b30-free-order', prop='C30', edits=[(C+'QSim.py','''            else: # this may seem redundant, but this is to keep the order in which the systems are added
                self.subSys[key] = self.subSys.pop(key)''','''            elif len(keys) == 1:
                self.subSys[key] = self.subSys.pop(key)''')],
 needs='a system added without a protocol before one with a protocol', breaks='the order of the systems and of the states given to computes changes at the run',
 demo='''
import quanguru as qg
a, b = qg.Qubit(frequency=1.), qg.Qubit(frequency=2.)
a.initialState, b.initialState = 0, 1
pro = qg.qProtocol(system=b, steps=[qg.freeEvolution(system=b)])
sim = qg.Simulation()
sim.addSubSys(a)
sim.addProtocol(pro)
sim.stepSize = 0.1
sim.stepCount = 1
seen = []
sim.compute = lambda obj, states: seen.append([s.toarray()[0, 0] for s in states])
sim.run()
assert sim.qSystems[0] is a and sim.qSystems[1] is b
assert abs(seen[0][0]) == 1 and abs(seen[0][1]) == 0, seen[0]
'''),
dict(id='b13-dependence-order', prop='C13', edits=[(C+'QPro.py','''                unitary = self._createUnitary(collapseOps, decayRates) @ unitary # pylint: disable=no-member
            self._paramBoundBase__matrix''','''                unitary = unitary @ self._createUnitary(collapseOps, decayRates) # pylint: disable=no-member
            self._paramBoundBase__matrix''')],
 needs='a protocol with a time dependency whose propagators at different values do not commute', breaks='the propagators are multiplied in the reverse order',
 demo='''
import numpy as np
import scipy.linalg as la
import quanguru as qg
ops = qg.QuantumToolbox.operators
q = qg.Qubit(frequency=1.)
q.createTerm(operator=ops.Jx, frequency=1.)
q.simulation.stepSize = 0.3
ev = qg.freeEvolution(system=q)
ev.timeDependency.createSweep(system=q, sweepKey='frequency', sweepList=[1., 5.])
jz, jx = ops.Jz(1/2).toarray(), ops.Jx(1/2).toarray()
want = la.expm(-0.3j*(5*jz + jx)) @ la.expm(-0.3j*(jz + jx))
assert np.allclose(ev.unitary().toarray(), want)
'''),
dict(id='b15-kept-shape', prop='C15', edits=[(C+'QRes.py','''        for key1, val1 in self._qResBase__states.items(): # pylint: disable=no-member
            if inds != []:''','''        for key1, val1 in self._qResBase__states.items(): # pylint: disable=no-member
            if inds != [] and len(val1) > 1:''')],
 needs='a sweep of a single value, so that one evolution is stored', breaks='the states of a one point sweep lose the level of the sweep (results keep it)',
 demo='''
import quanguru as qg
q = qg.Qubit(frequency=1.)
q.initialState = 0
sim = q.simulation
sim.stepSize = 0.1
sim.stepCount = 2
sim.Sweep.createSweep(system=q, sweepKey='frequency', sweepList=[2.])
sim.run()
states = sim.states[q.name + 'Results']
assert len(states) == 1 and len(states[0]) == 3, len(states)
'''),
]
