"""Expectation values, fidelities and localisation measures."""
from symx.harness import harness

ASSUMPTIONS = ['operators and states have free complex entries; spectra-based quantities are decided on diagonal matrices '
               '(any real or positive diagonal), where the eigensolver is exact']


def sumAll(items):
    tot = 0
    for i in items:
        tot = tot + i
    return tot


@harness('C08', quick=[{'d': 2}, {'d': 3}], thorough=[{'d': 2}, {'d': 3}, {'d': 4}],
         bounds='dimension 2..3 (thorough ..4), kets and matrices, sparse and dense, any operator')
def expectations(cx, d):
    fn = cx.fn
    spO, spS = cx.bool('sparseOp'), cx.bool('sparseState')
    herm = cx.bool('hermitian')
    op = cx.matrix('o', d, kind='hermitian' if herm else 'general', sparse=spO)
    ket = cx.bool('ket')
    state = cx.ket('p', d, spS) if ket else cx.matrix('r', d, kind='hermitian', sparse=spS)
    do, ds = cx.dense(op).copy(), cx.dense(state).copy()
    rho = ds @ cx.dag(ds) if ket else ds
    want = sumAll(do[i, j]*rho[j, i] for i in range(d) for j in range(d))
    got = fn.expectation(op, state)
    cx.equal(got, want, 'expectation = Tr(O rho)')
    if herm:
        cx.isreal(got, 'Hermitian operators have real expectations')
    cx.equal(op, do, 'inputs are not changed')
    cx.equal(state, ds, 'inputs are not changed')


@harness('C08', quick=[{'d': 2}, {'d': 3}], thorough=[{'d': 2}, {'d': 3}, {'d': 4}],
         bounds='dimension 2..3 (thorough ..4), kets against kets and matrices, sparse and dense')
def fidelities(cx, d):
    fn = cx.fn
    sp1, sp2 = cx.bool('sparse1'), cx.bool('sparse2')
    k1, k2 = cx.bool('ket1'), cx.bool('ket2')
    a = cx.ket('a', d, sp1) if k1 else cx.matrix('a', d, kind='hermitian', sparse=sp1)
    b = cx.ket('b', d, sp2) if k2 else cx.matrix('b', d, kind='hermitian', sparse=sp2)
    da, db = cx.dense(a).copy(), cx.dense(b).copy()
    ra = da @ cx.dag(da) if k1 else da
    rb = db @ cx.dag(db) if k2 else db
    want = sumAll(ra[i, j]*rb[j, i] for i in range(d) for j in range(d))
    got = fn.fidelityPure(a, b)
    cx.equal(got, want, 'fidelity = Tr(rho1 rho2)')
    cx.equal(fn.fidelityPure(b, a), got, 'fidelity is symmetric')
    cx.isreal(got, 'fidelity is real')
    cx.equal(a, da, 'inputs are not changed')
    cx.equal(b, db, 'inputs are not changed')


@harness('C08', quick=[{'d': 2}], thorough=[{'d': 2}, {'d': 3}],
         bounds='dimension 2 (thorough ..3), Hermitian operators with real entries')
def deviations(cx, d):
    fn = cx.fn
    sparse = cx.bool('sparse')
    op = cx.matrix('o', d, kind='real')
    op = op + op.T
    ket = cx.ket('p', d, real=True)
    rho = ket @ cx.dag(ket)
    mean = sumAll(op[i, j]*rho[j, i] for i in range(d) for j in range(d))
    sq = op @ op
    mean2 = sumAll(sq[i, j]*rho[j, i] for i in range(d) for j in range(d))
    cx.assume(mean2 - mean*mean > 0)
    opIn = cx.sp.csc_matrix(op) if sparse else op
    dev = fn.standardDev(opIn, ket)
    cx.equal(dev*dev, mean2 - mean*mean, 'variance')
    pair = fn.standardDev(opIn, ket, expect=True)
    cx.equal(pair[0], dev, 'deviation with expect')
    cx.equal(pair[1], mean, 'expectation with expect')


@harness('C08', quick=[{'d': 2}, {'d': 3}], thorough=[{'d': 2}, {'d': 3}, {'d': 4}],
         bounds='dimension 2..3 (thorough ..4), 1..2 columns')
def columns(cx, d):
    fn = cx.fn
    cols = cx.pick(cx.int('cols', 1, 2))
    op = cx.matrix('o', d)
    states = cx.matrix('s', d, cols)
    got = fn._expectationColArr(op, states)
    want = []
    for c in range(cols):
        want.append(sumAll(states[i, c].conjugate()*op[i, j]*states[j, c] for i in range(d) for j in range(d)))
    cx.equal(cx.np.asarray(got), cx.np.asarray(want), 'one expectation value per column')


@harness('C08', quick=[{'d': 2}, {'d': 3}], thorough=[{'d': 2}, {'d': 3}, {'d': 4}],
         bounds='dimension 2..3 (thorough ..4), any nonzero ket, computational and rotated bases')
def participation(cx, d):
    ipr = cx.load('QuantumToolbox.IPR')
    sparse = cx.bool('sparse')
    ket = cx.ket('p', d, sparse, nonzero=True)
    dns = cx.dense(ket)
    total = sumAll((dns[i, 0]*dns[i, 0].conjugate()).real*(dns[i, 0]*dns[i, 0].conjugate()).real for i in range(d))
    cx.equal(ipr.iprKetNB(ket)*total, 1, 'inverse participation ratio in the computational basis')
    cx.equal(ipr.iprKet(cx.st.completeBasis(d), ket)*total, 1, 'inverse participation ratio in a given basis')
    if d == 2:
        root = cx.sqrt(cx.frac(1, 2))
        plus, minus = cx.cdense([[root], [root]]), cx.cdense([[root], [-root]])
        amps = [root*(dns[0, 0] + dns[1, 0]), root*(dns[0, 0] - dns[1, 0])]
        total = sumAll((a*a.conjugate()).real*(a*a.conjugate()).real for a in amps)
        cx.assume(total > 0)
        cx.equal(ipr.iprKet([plus, minus], ket)*total, 1, 'inverse participation ratio in a rotated basis')


@harness('C08', quick=[{'d': 2}], thorough=[{'d': 2}, {'d': 3}],
         bounds='diagonal matrices of dimension 2 (thorough ..3): any real, positive or complex diagonals')
def spectra(cx, d):
    fn = cx.fn
    sparse = cx.bool('sparse')
    a = cx.matrix('a', d, kind='diag', sparse=sparse)
    b = cx.matrix('b', d, kind='diag', sparse=sparse)
    da, db = cx.dense(a).copy(), cx.dense(b).copy()
    want = 0.5*sumAll(abs(da[i, i]-db[i, i]) for i in range(d))
    cx.equal(fn.traceDistance(a, b), want, 'trace distance is half the sum of absolute differences')
    p = [cx.real(f'p{i}', positive=True) for i in range(d)]
    rho = cx.mat([[p[i] if i == j else 0 for j in range(d)] for i in range(d)], sparse)
    want = -1*sumAll(x*cx.log(x) for x in p)
    cx.equal(fn.entropy(rho), want, 'von Neumann entropy')
    cx.equal(fn.entropy(rho, base2=True)*cx.log(2), want, 'entropy in bits')
    pure = cx.mat([[1 if i == j == 0 else 0 for j in range(d)] for i in range(d)], sparse)
    cx.equal(fn.entropy(pure), 0, 'pure states have no entropy')
    at = cx.pick(cx.int('at', 0, d-1))
    cx.equal(fn.entropy(cx.mat([[1] if i == at else [0] for i in range(d)], sparse), base2=cx.bool('base2')), 0,
             'kets have no entropy')
    vals, vecs = fn.sortedEigens(a)
    for i in range(d):
        cx.equal(da @ cx.dense(vecs[i]), vals[i]*cx.dense(vecs[i]), 'vectors stay paired with their values')
    for i in range(d-1):
        cx.check(vals[i].real <= vals[i+1].real, 'values ascend')
    cx.equal(sumAll(vals), sumAll(da[i, i] for i in range(d)), 'all values are returned')
    vals, vecs = fn.sortedEigens(a, mag=True)
    for i in range(d):
        cx.equal(da @ cx.dense(vecs[i]), vals[i]*cx.dense(vecs[i]), 'vectors stay paired with their values')
    for i in range(d-1):
        cx.check(abs(vals[i]) <= abs(vals[i+1]), 'magnitudes ascend')
    nrm, _ = fn.spectralNorm(a)
    for i in range(d):
        cx.check(nrm*nrm >= (da[i, i]*da[i, i]).real - 1e-9*(nrm*nrm+1), 'the spectral norm bounds every eigenvalue')
    prod = 1
    for i in range(d):
        prod = prod*(nrm*nrm - da[i, i]*da[i, i])
    cx.equal(prod, 0, 'the spectral norm is attained')


@harness('C08', bounds='two-qubit kets with any complex amplitudes (their product matrix has rank one), diagonal mixtures')
def concurrences(cx):
    fn = cx.fn
    sparse = cx.bool('sparse')
    cx.eigRankOne()
    ket = cx.ket('p', 4, sparse)
    dns = cx.dense(ket).copy()
    tangle = dns[0, 0]*dns[3, 0] - dns[1, 0]*dns[2, 0]
    form = cx.bool('density')
    got = fn.concurrence(cx.st.densityMatrix(ket) if form else ket)
    cx.equal(got*got, 4*(tangle*tangle.conjugate()).real, 'concurrence of a pure state is 2|ad - bc|')
    cx.check(got >= 0, 'concurrence is not negative')
    cx.equal(ket, dns, 'the state is not changed')


@harness('C08', bounds='any positive diagonal mixture of the two-qubit basis')
def separable(cx):
    sparse = cx.bool('sparse')
    p = [cx.real(f'p{i}', positive=True) for i in range(4)]
    rho = cx.mat([[p[i] if i == j else 0 for j in range(4)] for i in range(4)], sparse)
    cx.equal(cx.fn.concurrence(rho), 0, 'classical mixtures have no concurrence')
