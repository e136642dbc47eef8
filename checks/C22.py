"""Gates and rotations of the toolbox."""
from symx.harness import harness

ASSUMPTIONS = ['angles and phases are free reals; spin dimensions are chosen by the solver']

PAULI = {'x': [[0, 1], [1, 0]], 'y': [[0, -1j], [1j, 0]], 'z': [[1, 0], [0, -1]]}


@harness('C22', bounds='any rotation angles, each axis in upper or lower case, sparse and dense')
def qubit(cx):
    sr = cx.load('QuantumToolbox.spinRotations')
    sparse = cx.bool('sparse')
    axis = cx.choice('axis', ['x', 'y', 'z', 'X', 'Y', 'Z'])
    a, b = cx.real('a', lo=-30, hi=30), cx.real('b', lo=-30, hi=30)
    sig = cx.cdense(PAULI[axis.lower()])
    one = cx.cdense([[1, 0], [0, 1]])
    ra, rb = sr.qubRotation(axis, a, sparse), sr.qubRotation(axis, b, sparse)
    cx.check(bool(cx.issparse(ra)) == sparse, 'container')
    want = cx.cos(a/2)*one - 1j*cx.sin(a/2)*sig
    cx.equal(ra, want, 'exp(-i angle sigma / 2)')
    cx.equal(ra @ cx.dag(ra), one, 'unitary')
    cx.equal(ra @ rb, sr.qubRotation(axis, a+b, sparse), 'angles add')
    cx.equal(sr.qubRotation(axis, 0*a, sparse), one, 'no rotation')
    named = getattr(sr, axis.lower() + 'Rotation')
    cx.equal(named(a, sparse), ra, 'named rotations agree')
    cx.equal(cx.ev.Unitary(0.5*a*cx.ops.sigmaz(sparse)), sr.zRotation(a, sparse), 'z rotation is the propagator of Jz')
    cx.raises(ValueError, lambda: sr.qubRotation('w', a, sparse), 'unknown axes are refused')


@harness('C22', quick=[{'hi': 4}], thorough=[{'hi': 7}],
         bounds='spin dimension 2..4 (thorough ..7) given as j or as the dimension, any angle')
def spins(cx, hi):
    sr = cx.load('QuantumToolbox.spinRotations')
    dim = cx.pick(cx.int('dim', 2, hi))
    isDim = cx.bool('isDim')
    sparse = cx.bool('sparse')
    axis = cx.choice('axis', ['x', 'y', 'z', 'Z'])
    j = cx.frac(dim-1, 2)
    angle = cx.real('a')
    op = getattr(cx.ops, 'J' + axis.lower())(j)
    got = sr.spinRotation(axis, angle, dim if isDim else j, sparse=sparse, isDim=isDim)
    cx.equal(got, cx.expm(-1j*angle*cx.dense(op)), 'exp(-i angle J)')
    if axis.lower() == 'z':
        want = [[cx.exp(-1j*angle*(j-k)) if k == m else 0 for m in range(dim)] for k in range(dim)]
        cx.equal(got, cx.cdense(want), 'z rotations are phases')
    cx.raises(ValueError, lambda: sr.spinRotation('w', angle, j), 'unknown axes are refused')


@harness('C22', bounds='any phase, sparse and dense')
def gates(cx):
    bg = cx.load('QuantumToolbox.basicGates')
    sparse = cx.bool('sparse')
    p, q = cx.real('p', lo=-30, hi=30), cx.real('q', lo=-30, hi=30)
    psi = cx.ket('k', 4)
    cnot = bg.CNOT(sparse)
    cx.check(bool(cx.issparse(cnot)) == sparse, 'container')
    cx.equal(cx.dense(cnot) @ psi, cx.cdense([[psi[0, 0]], [psi[1, 0]], [psi[3, 0]], [psi[2, 0]]]),
             'CNOT flips the target when the control is set')
    cp = bg.CPHASE(p, sparse)
    cx.check(bool(cx.issparse(cp)) == sparse, 'container')
    cx.equal(cx.dense(cp) @ psi, cx.cdense([[psi[0, 0]], [psi[1, 0]], [psi[2, 0]], [cx.exp(1j*p)*psi[3, 0]]]),
             'CPHASE adds its phase to the last level')
    cx.equal(cp @ bg.CPHASE(q, sparse), bg.CPHASE(p+q, sparse), 'phases add')
    had = bg.Hadamard(sparse)
    cx.check(bool(cx.issparse(had)) == sparse, 'container')
    two = cx.ket('h', 2)
    root = cx.sqrt(cx.frac(2, 1))
    cx.equal(root*(cx.dense(had) @ two), cx.cdense([[two[0, 0] + two[1, 0]], [two[0, 0] - two[1, 0]]]), 'Hadamard')
    one2 = cx.dense(cx.eye(2))
    cx.equal(had @ had, one2, 'Hadamard is its own inverse')
    for gate in (cnot, cp):
        cx.equal(gate @ cx.dag(gate), cx.dense(cx.eye(4)), 'unitary')
    had4 = cx.la.tensorProd(cx.eye(2), had)
    cx.equal(cx.dense(had4) @ cx.dense(bg.CPHASE(cx.pi, sparse)) @ cx.dense(had4), cnot,
             'CNOT is a controlled phase of pi between Hadamards')
