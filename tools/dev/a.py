T='QuantumToolbox/'
SEEDS=[
dict(id='b01-squeeze-conj', prop='C01', edits=[(T+'operators.py','(np.conj(alpha) * (destroy(dim)@destroy(dim)))','(alpha * (destroy(dim)@destroy(dim)))')],
 needs='a squeezing parameter with an imaginary part', breaks='the squeezing operator of a complex parameter is not the defined one and not unitary',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox import operators as ops
u = ops.squeeze(0.3j, 6).A
assert np.allclose(u @ u.conj().T, np.eye(6)), 'not unitary'
'''),
dict(id='b02-matpower-inplace', prop='C02', edits=[(T+'linearAlgebra.py','''    matPow = matrix
    return (matPow @ _matPower(matrix, power-1)) if power > 1 else matPow''','''    matPow, base = matrix, 1*matrix
    for _ in range(power-1):
        matPow @= base
    return matPow''')],
 needs='a dense matrix and a power above one', breaks='the power of a dense matrix overwrites the matrix (and powers above two are wrong)',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox.linearAlgebra import _matPower
a = np.array([[1., 2.], [3., 5.]])
keep = a.copy()
_matPower(a, 2)
assert np.allclose(a, keep), 'input changed'
'''),
dict(id='b03-ptrace-ket', prop='C03', edits=[(T+'linearAlgebra.py','        rho = (rho @ hc(rho))','        rho = (rho @ rho.T)')],
 needs='a ket with complex amplitudes', breaks='the partial trace of a complex ket uses the transpose instead of the adjoint',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox.linearAlgebra import partialTrace
k = np.array([[1], [1j], [0], [0]])/np.sqrt(2)
assert np.allclose(np.trace(partialTrace([0], [2, 2], k)), 1)
'''),
dict(id='b04-dissipator-pair', prop='C04', edits=[(T+'evolution.py','    number = operatorB @ operatorA\n','    number = hc(operatorA) @ operatorA\n')],
 needs='a dissipator of two different operators that are not adjoints of each other', breaks='the anti-commutator part of a two-operator dissipator',
 demo='''
import numpy as np
import quanguru as qg
from quanguru.QuantumToolbox.evolution import dissipator
from quanguru.QuantumToolbox.states import mat2Vec, vec2Mat
a = np.array([[0, 1], [2, 1j]])
b = np.array([[1, 1], [0, 3]])
rho = np.array([[.5, .1], [.1, .5]], dtype=complex)
got = vec2Mat(dissipator(a, b) @ mat2Vec(rho))
n = b @ a
assert np.allclose(got, a @ rho @ b - .5*(n @ rho + rho @ n))
'''),
dict(id='b05-term-order', prop='C12', edits=[('classes/QTerms.py','''        self._checkAndUpdateParamsWhenMultiple(ordVal if ordVal is not None else 1, '_QTerm__order', 'order')''','''        ordVal = ordVal if ordVal is not None else 1
        if self.qSystem is None or isinstance(self.qSystem, (list, tuple)) or isinstance(ordVal, (list, tuple)):
            self._checkAndUpdateParamsWhenMultiple(ordVal, '_QTerm__order', 'order')
        else:
            setAttr(self, '_QTerm__order', ordVal)''')],
 needs='the order of a term changed after its Hamiltonian was read', breaks='the Hamiltonian keeps the old power of the operator',
 demo='''
import numpy as np
import quanguru as qg
q = qg.Cavity(dimension=4, frequency=1)
h = q.totalHamiltonian.A.copy()
q.order = 2
assert np.allclose(q.totalHamiltonian.A, h @ h)
'''),
]
