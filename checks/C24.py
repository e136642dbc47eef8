"""Statistics of eigenvectors and the distributions of random matrix theory they are compared with."""
from symx.harness import harness

ASSUMPTIONS = ['the distributions are compared with the textbook ones in exact arithmetic; the gamma function is exact at '
               'integers and half-integers; _eigStat is decided on diagonal matrices, where the eigensolver is exact']
TOP, LOW = 10**30, 10**-30


def factorial(num):
    return 1 if num < 2 else num*factorial(num - 1)


def gammaHalf(cx, twice):
    """the gamma function at twice/2"""
    if twice % 2 == 0:
        return factorial(twice//2 - 1)
    num = (twice - 1)//2
    return cx.sqrt(cx.pi)*cx.frac(factorial(2*num), 4**num*factorial(num))


@harness('C24', quick=[{'beta': 1}, {'beta': 2}, {'beta': 4}], thorough=[{'beta': b, 'top': 12} for b in (1, 2, 4)],
         bounds='any amplitude strictly between zero and one, dimensions 3..8 (thorough ..12)')
def components(cx, beta, top=8):
    rmt = cx.load('QuantumToolbox.rmtDistributions')
    dim = cx.pick(cx.int('dim', 3, top))
    x = cx.real('x', positive=True)
    cx.assume(x < 1)
    if beta == 1:
        root = cx.sqrt(1 - x)
        want = gammaHalf(cx, dim)/gammaHalf(cx, dim - 1)/cx.sqrt(cx.pi*x)
        for _ in range(dim - 3):
            want = want*root
    elif beta == 2:
        want = (dim - 1)*(1 - x)**(dim - 2)
    else:
        # two of 2 dim - 2 real degrees of freedom less: normalised on [0, 1] with mean 2/dim
        want = (dim - 1)*(dim - 2)*x*(1 - x)**(dim - 3)
    got = rmt.EigenVectorDist(x, dim, beta)
    if beta == 1 and cx.bool('default'):
        got = rmt.EigenVectorDist(x, dim)
    if want > 10**30:
        cx.equal(got, 10**30, 'large values are cut')
    elif want < cx.frac(1, 10**30):
        cx.check(got <= cx.frac(2, 10**30), 'small values are cut')
    else:
        cx.equal(got, want, 'distribution of the components')


@harness('C24', quick=[{'beta': b} for b in (0, 1, 2, 4)], bounds='any non-negative spacing')
def spacings(cx, beta):
    rmt = cx.load('QuantumToolbox.rmtDistributions')
    x = cx.real('x')
    cx.assume(x >= 0)
    func = rmt.WignerSurmise if cx.bool('surmise') else rmt.WignerDyson
    got = func(x) if beta == 1 and cx.bool('default') else func(x, beta=beta)
    pi = cx.pi
    if beta == 0:
        want = cx.exp(-x)
    elif beta == 1:
        want = pi/2*x*cx.exp(-pi*x*x/4)
    elif beta == 2:
        want = 32/pi**2*x*x*cx.exp(-4*x*x/pi)
    else:
        want = cx.frac(2**18, 3**6)/pi**3*x**4*cx.exp(-64*x*x/(9*pi))
    cx.equal(got, want, 'distribution of the spacings')


@harness('C24', bounds='any positive parameter, counts 0..6')
def counts(cx):
    rmt = cx.load('QuantumToolbox.rmtDistributions')
    num = cx.pick(cx.int('count', 0, 6))
    lam = cx.real('lam', positive=True)
    cx.equal(rmt.Poissonian(num, lam)*factorial(num), lam**num*cx.exp(-lam), 'Poisson distribution')


def absSq(val):
    return (val*val.conjugate()).real if hasattr(val, 'conjugate') else val*val


@harness('C24', quick=[{'d': 2}, {'d': 3}, {'d': 4}], thorough=[{'d': 2}, {'d': 3}, {'d': 4}, {'d': 6}],
         bounds='any complex matrix of vectors, dimensions 2..4 (thorough 6); pairs of components for even dimensions')
def amplitudes(cx, d):
    vec = cx.load('QuantumToolbox.eigenVecVal')
    mat = cx.matrix('v', d)
    if cx.bool('columns'):    # vectors computed as rows
        mat = mat.T
    before = cx.dense(mat).copy()
    symp = cx.bool('symp') if d % 2 == 0 else False
    got = vec._eigStatEig(mat, symp) if symp or cx.bool('given') else vec._eigStatEig(mat)
    if symp:
        want = [absSq(before[k, c]) + absSq(before[k + 1, c]) for c in range(d) for k in range(0, d, 2)]
    else:
        want = [absSq(before[r, c]) for r in range(d) for c in range(d)]
    cx.check(len(got) == len(want), 'one amplitude for each component')
    for one, two in zip(got, want):
        cx.equal(one, two, 'amplitudes')
    cx.equal(mat, before, 'the vectors are not changed')


@harness('C24', quick=[{'d': 2}, {'d': 4}], bounds='diagonal matrices of dimension 2 and 4, sparse and dense')
def eigenvectors(cx, d):
    vec = cx.load('QuantumToolbox.eigenVecVal')
    mat = cx.matrix('a', d, kind='diag', sparse=cx.bool('sparse'))
    symp = cx.bool('symp')
    got = vec._eigStat(mat, symp)
    want = [1 if r == c else 0 for r in range(d) for c in range(d)]
    if symp:
        want = [1 if c in (k, k + 1) else 0 for c in range(d) for k in range(0, d, 2)]
    cx.check(len(got) == len(want), 'one amplitude for each component')
    for one, two in zip(got, want):
        cx.equal(one, two, 'amplitudes')


@harness('C24', quick=[{'d': 2}, {'d': 4}], bounds='any ket of dimension 2 and 4 in the computational basis or a list of any kets')
def kets(cx, d):
    vec = cx.load('QuantumToolbox.eigenVecVal')
    sparse = cx.bool('sparse')
    ket = cx.ket('p', d, sparse)
    dns = cx.dense(ket).copy()
    if cx.bool('computational'):
        basis = cx.st.completeBasis(d)
        want = [absSq(dns[k, 0]) for k in range(d)]
    else:
        basis = [cx.ket(f'b{k}', d, sparse) for k in range(d)]
        want = []
        for other in basis:
            other = cx.dense(other)
            over = sum((other[k, 0].conjugate()*dns[k, 0] for k in range(d)), 0)
            want.append(absSq(over))
    symp = cx.choice('symp', ['default', True, False])
    got, pairs = vec.eigVecStatKet(basis, ket) if symp == 'default' else vec.eigVecStatKet(basis, ket, symp)
    cx.check(len(got) == d, 'one amplitude for each basis vector')
    for one, two in zip(got, want):
        cx.equal(one, two, 'amplitudes')
    wantPairs = [want[k] + want[k + 1] for k in range(0, d, 2)] if symp else []
    cx.check(len(pairs) == len(wantPairs), 'number of pairs')
    for one, two in zip(pairs, wantPairs):
        cx.equal(one, two, 'pairs')
