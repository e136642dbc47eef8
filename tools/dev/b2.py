T='QuantumToolbox/'
SEEDS=[
dict(id='b02-matrix-power', prop='C02', edits=[(T+'linearAlgebra.py','''    matPow = matrix
    return (matPow @ _matPower(matrix, power-1)) if power > 1 else matPow''','''    matPow = matrix
    while power > 1: # repeated squaring
        matPow = matPow @ matPow @ matrix if power % 2 else matPow @ matPow
        power = power // 2
    return matPow''')],
 needs='a power whose binary digits after the first are not all the same', breaks='powers by squaring use the digits of the power from the wrong end',
 demo='''
import numpy as np
import quanguru as qg
m = np.array([[1, 1], [0, 1]])
for p in range(1, 9):
    assert (qg.QuantumToolbox.linearAlgebra._matPower(m, p) == np.linalg.matrix_power(m, p)).all(), p
'''),
dict(id='b06-zero-time', prop='C06', edits=[(T+'evolution.py','''    sparse = sp.issparse(Hamiltonian)
    if sparse is True:
        liouvillianEXP = slinA.expm(-1j * Hamiltonian * timeStep)''','''    sparse = sp.issparse(Hamiltonian)
    if timeStep == 0: # nothing to exponentiate
        liouvillianEXP = sp.identity(Hamiltonian.shape[0], dtype=complex, format='csc')
    elif sparse is True:
        liouvillianEXP = slinA.expm(-1j * Hamiltonian * timeStep)''')],
 needs='an array for the Hamiltonian and no time', breaks='the propagator of an array is sparse',
 demo='''
import numpy as np
import quanguru as qg
u = qg.QuantumToolbox.evolution.Unitary(np.eye(2), 0.)
assert isinstance(u, np.ndarray), type(u)
'''),
dict(id='b11-nested-before', prop='C11', edits=[('classes/QSystem.py','''        subSys._dimsBefore *= self._dimsBefore
        subSys._dimsAfter *= self._dimsAfter
''','''        if isinstance(self.superSys, QuantumSystem):
            subSys._dimsBefore *= self._dimsBefore
            subSys._dimsAfter *= self.superSys._dimsAfter
''')],
 needs='adding a sub-system to a composite system that is inside another, before other systems', breaks='the added system misses the dimensions after its composite',
 demo='''
import quanguru as qg
a, b, c = qg.Qubit(frequency=1), qg.Cavity(dimension=3, frequency=1), qg.Qubit(frequency=1)
inner = qg.QuantumSystem(subSys=[a])
outer = qg.QuantumSystem(subSys=[inner, b])
inner.addSubSys(c)
assert outer.totalHamiltonian.shape == (12, 12)
assert c.totalHamiltonian.shape == (12, 12), c.totalHamiltonian.shape
'''),
dict(id='b16-samples-bound', prop='C16', edits=[('classes/QSimBase.py','''        setAttrParam(self, '_timeBase__samples', num)''','''        setAttrParam(self, '_timeBase__samples', num)
        if self._timeBase__totalTime._bound not in (None, False):# pylint: disable=protected-access
            self._timeBase__totalTime._value = self._timeBase__totalTime._bound._value# pylint: disable=protected-access
            self._timeBase__totalTime._bound = None''')],
 needs='samples set on a protocol whose total time comes from its system and changes later', breaks='setting samples freezes the total time',
 demo='''
import quanguru as qg
q = qg.Qubit(frequency=1)
q.simTotalTime, q.simStepSize = 2, 0.5
p = qg.freeEvolution(system=q)
q.simulation.addProtocol(p)
q.simTotalTime = 3
p.simSamples = 4
q.simTotalTime = 5
assert p.simulation.totalTime == 5, p.simulation.totalTime
'''),
dict(id='b18-given-array', prop='C18', edits=[('classes/QSimBase.py','''            self._stateBase__initialState._value = None # pylint: disable=no-member, protected-access
            del oldMat''','''            self._stateBase__initialState._value = None # pylint: disable=no-member, protected-access
            if isinstance(self._stateBase__initialStateInput._value, ndarray): # the given array is the largest one
                self._stateBase__initialStateInput._value = None
            del oldMat''')],
 needs='an initial state given as an array to a system whose matrices are discarded', breaks='the state cannot be recreated',
 demo='''
import numpy as np
import quanguru as qg
q = qg.Qubit(frequency=1)
q.initialState = np.array([[0.6], [0.8]])
assert np.allclose(qg.densityMatrix(q.initialState), [[0.36, 0.48], [0.48, 0.64]])
q.delMatrices(_exclude=[])
got = q.initialState
got = got.toarray() if hasattr(got, 'toarray') else got
assert np.allclose(got, [[0.6], [0.8]]), got
'''),
dict(id='b20-coupling-sign', prop='C20', edits=[(T+'Hamiltonians.py','''    U[2*n-1, 2*n] = -1j*n**0.5*g*np.sin(''','''    U[2*n-1, 2*n] = -1j*(n*g**2)**0.5*np.sin(''')],
 needs='a negative coupling', breaks='half of the off-diagonal elements lose the sign of the coupling',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox.Hamiltonians import UJC
u = UJC(1., 1.2, -0.3, 2., 4)
assert np.allclose(u, u.T)
assert np.allclose(u @ u.conj().T, np.eye(8))
'''),
dict(id='b22-full-turn', prop='C22', edits=[(T+'spinRotations.py','''    angle = angle/2
    rotUnitary = round(np.cos(angle), 15)*identity(2, sparse) - 1j*round(np.sin(angle), 15)*sigmaz(sparse=sparse)''','''    angle = angle/2 if abs(angle) <= 2*np.pi else (angle % (2*np.pi))/2
    rotUnitary = round(np.cos(angle), 15)*identity(2, sparse) - 1j*round(np.sin(angle), 15)*sigmaz(sparse=sparse)''')],
 needs='an angle above a full turn', breaks='the sign that a full turn gives to a spin half is lost',
 demo='''
import numpy as np
import quanguru as qg
r = qg.QuantumToolbox.spinRotations.zRotation
assert np.allclose((r(2.5*np.pi) @ r(-0.5*np.pi)).A, r(2*np.pi).A)
'''),
dict(id='b23-wigner-imag', prop='C23', edits=[(T+'quasiProbabilities.py','''            temp2 = (2 * A * Wlist[n - 1] - np.sqrt(m) * temp) / np.sqrt(n)
            temp = copy(Wlist[n])
            Wlist[n] = temp2
            W += 2 * real(rho[m, n] * Wlist[n])''','''            temp2 = (2 * A * Wlist[n - 1] - np.sqrt(m) * temp) / np.sqrt(n)
            temp = copy(Wlist[n])
            Wlist[n] = temp2
            W += real(rho[m, n] + rho[n, m]) * real(Wlist[n])''')],
 needs='coherences between excited levels with an imaginary part', breaks='the imaginary part of coherences above the ground state is dropped',
 demo='''
import numpy as np
import quanguru as qg
W = qg.QuantumToolbox.quasiProbabilities.Wigner
x = np.linspace(-2, 2, 5)
rho = lambda ph: (lambda k: k @ k.conj().T)(np.array([[0], [1], [ph]])/np.sqrt(2))
# rotating the phase space by a quarter turn multiplies level n by i**n
assert np.allclose(W(rho(1j), x), W(rho(1), x).T[:, ::-1]) or np.allclose(W(rho(1j), x), W(rho(1), x).T[::-1])
'''),
dict(id='b24-memory-order', prop='C24', edits=[(T+'eigenVecVal.py','''    return list((np.abs(EigVecs.flatten()))**2) if not symp else _eigsStatEigSymp(EigVecs)''','''    return list((np.abs(EigVecs.ravel(order='K')))**2) if not symp else _eigsStatEigSymp(EigVecs)''')],
 needs='eigenvectors stored by columns (as numpy.linalg.eigh or a transposed array)', breaks='the components come in the order of the memory',
 demo='''
import numpy as np
from quanguru.QuantumToolbox.eigenVecVal import _eigStatEig
v = np.array([[1, 2], [3, 4]])
assert list(_eigStatEig(v.T)) == list(_eigStatEig(v.T.copy())), _eigStatEig(v.T)
'''),
dict(id='b26-same-class', prop='C26', edits=[('classes/extensions/couplings.py','''    def couplerDecorator(obj, couplingStrength, subSys1=None, subSys2=None):
        if isinstance(subSys1, (Qubit, Spin)):''','''    def couplerDecorator(obj, couplingStrength, subSys1=None, subSys2=None):
        if subSys1 is None and subSys2 is None: # one of each kind
            kinds = {type(sys): sys for sys in obj.subSys.values() if isinstance(sys, (Cavity, Qubit, Spin))}
            if len(kinds) == 2:
                subSys1, subSys2 = kinds.values()
        if isinstance(subSys1, (Qubit, Spin)):''')],
 needs='a coupling without given systems, in a composite with two systems of the same kind', breaks='the last instead of the first of the systems are coupled',
 demo='''
import numpy as np
import quanguru as qg
a, b, c = qg.Cavity(dimension=2, frequency=1), qg.Qubit(frequency=1), qg.Qubit(frequency=1)
s = qg.QuantumSystem(subSys=[a, b, c])
t = s.JC(0.3)
a2, b2, c2 = qg.Cavity(dimension=2, frequency=1), qg.Qubit(frequency=1), qg.Qubit(frequency=1)
s2 = qg.QuantumSystem(subSys=[a2, b2, c2])
s2.JC(0.3, a2, b2)
assert np.allclose(s.totalHamiltonian.A, s2.totalHamiltonian.A)
'''),
dict(id='b27-pulse-area', prop='C27', edits=[('classes/QDrive.py','''p._scale = rotation / (2*pi*p.integrateShape([p.t0 + i*((p.t1 - p.t0)/1000) for i in range(1001)]))''','''p._scale = rotation / (2*pi*p.integrateShape([p.t0 + i*((p.t1 - p.t0)/1000) for i in range(1000)]))''')],
 needs='a pulse given by its rotation', breaks='the area leaves out the last interval',
 demo='''
import numpy as np
import quanguru as qg
d = qg.qDrive()
p = d.addPulse(rotation=np.pi, t0=0., t1=1., func=lambda t: t)
got = 2*np.pi*p.integrateShape([i/1000 for i in range(1001)])
assert abs(got - np.pi) < 1e-4, got
'''),
dict(id='b28-zero-results', prop='C28', edits=[('extensions/saveReadCSV.py','''        if len(result.keys()) > 0:''','''        if any(np.any(val) for val in result.values()):''')],
 needs='results that are all zero', breaks='results that are zero are not saved',
 demo='''
import os, shutil, tempfile
import quanguru as qg
from quanguru.extensions.saveReadCSV import saveQResCSV
q = qg.Qubit(frequency=1)
q.qRes.singleResult = ['zeros', 0.0]
folder = tempfile.mkdtemp()
try:
    q.qRes.resultsDict['zeros'] = [0.0, 0.0]
    saveQResCSV(q.qRes, folder)
    assert any('zeros' in f for f in os.listdir(folder)), os.listdir(folder)
finally:
    shutil.rmtree(folder)
'''),
]
SEEDS=[s for s in SEEDS if s['edits']]
