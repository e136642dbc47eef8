"""Model Hamiltonians."""
from symx.harness import harness

ASSUMPTIONS = ['frequencies, couplings and times are free reals; the cavity dimension is chosen by the solver']


def kron(cx, a, b):
    rows = []
    for i in range(a.shape[0]):
        for k in range(b.shape[0]):
            rows.append([a[i, j]*b[k, m] for j in range(a.shape[1]) for m in range(b.shape[1])])
    return cx.cdense(rows)


def parts(cx, dim):
    low = [[0]*dim for _ in range(dim)]
    for i in range(dim-1):
        low[i][i+1] = cx.sqrt(cx.frac(i+1, 1))
    low = cx.cdense(low)
    num = cx.cdense([[i if i == j else 0 for j in range(dim)] for i in range(dim)])
    one = cx.cdense([[1 if i == j else 0 for j in range(dim)] for i in range(dim)])
    sz, sp_, sm = cx.cdense([[1, 0], [0, -1]]), cx.cdense([[0, 1], [0, 0]]), cx.cdense([[0, 0], [1, 0]])
    id2 = cx.cdense([[1, 0], [0, 1]])
    return low, cx.dag(low), num, one, sz, sp_, sm, id2


@harness('C20', quick=[{'hi': 5}], thorough=[{'hi': 9}],
         bounds='cavity dimension 1..5 (thorough ..9), any frequencies and couplings')
def hamiltonians(cx, hi):
    ham = cx.load('QuantumToolbox.Hamiltonians')
    dim = cx.pick(cx.int('dim', 1, hi))
    wq, wc, g = cx.real('wq'), cx.real('wc'), cx.real('g')
    low, up, num, one, sz, sp_, sm, id2 = parts(cx, dim)
    cav, qub = wc*kron(cx, id2, num), 0.5*wq*kron(cx, sz, one)
    got = ham.qubCavFreeHam(wq, wc, dim)
    cx.equal(got[0], cav, 'cavity part')
    cx.equal(got[1], qub, 'qubit part')
    free = cav + qub
    jc = ham.JCHam(wq, wc, g, dim)
    ajc = ham.aJCHam(wq, wc, g, dim)
    rabi = ham.RabiHam(wq, wc, g, dim)
    cx.equal(jc, free + g*(kron(cx, sm, up) + kron(cx, sp_, low)), 'Jaynes-Cummings')
    cx.equal(ajc, free + g*(kron(cx, sp_, up) + kron(cx, sm, low)), 'anti-Jaynes-Cummings')
    cx.equal(rabi, free + g*(kron(cx, sp_ + sm, up + low)), 'Rabi')
    for h in (jc, ajc, rabi):
        cx.equal(cx.dag(h), h, 'Hermitian')
    excit = kron(cx, 0.5*sz, one) + kron(cx, id2, num)
    dj = cx.dense(jc)
    cx.equal(dj @ excit, excit @ dj, 'Jaynes-Cummings conserves the number of excitations')
    cx.equal(cx.dense(jc) + cx.dense(ajc) - free, rabi, 'Rabi is Jaynes-Cummings plus anti-Jaynes-Cummings')


@harness('C20', quick=[{'hi': 3}], thorough=[{'hi': 5}],
         bounds='cavity dimension 2..3 (thorough ..5), any frequencies and times, nonzero coupling')
def jcUnitary(cx, hi):
    ham = cx.load('QuantumToolbox.Hamiltonians')
    dim = cx.pick(cx.int('dim', 2, hi))
    wq, wc, g, t = cx.real('wq'), cx.real('wc'), cx.real('g', nonzero=True), cx.real('t')
    sparse = cx.bool('sparse')
    got = ham.UJC(wq, wc, g, t, dim, sparse=sparse)
    cx.check(bool(cx.issparse(got)) == sparse, 'container')
    got = cx.dense(got)
    det = wq - wc
    size = 2*dim
    want = [[0]*size for _ in range(size)]
    want[0][0] = cx.exp(0.5j*det*t)*cx.exp(0.5j*wc*t)
    want[-1][-1] = cx.exp(-0.5j*det*t)*cx.exp(-1j*wc*(dim-0.5)*t)
    for n in range(1, dim):
        om = cx.sqrt(n*g*g + det*det/4)
        phase = cx.exp(-1j*wc*(n-0.5)*t)
        c, s = cx.cos(om*t), cx.sin(om*t)
        want[2*n][2*n] = phase*(c + 0.5j*det*s/om)
        want[2*n-1][2*n-1] = phase*(c - 0.5j*det*s/om)
        want[2*n][2*n-1] = want[2*n-1][2*n] = -1j*cx.sqrt(cx.frac(n, 1))*g*s/om*phase
    cx.equal(got, cx.cdense(want), 'closed form of the Jaynes-Cummings evolution')
    cx.equal(got @ cx.dag(got), cx.dense(cx.eye(size)), 'unitary')
