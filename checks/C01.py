"""Operator algebra of the toolbox."""
from symx.harness import harness

ASSUMPTIONS = ['dimensions are enumerated by the solver within the stated range, one path per dimension; amplitudes, '
               'angles and coefficients are free reals']


def spoil(cx, mat):
    """overwrite a returned matrix in place, as a caller may"""
    if cx.issparse(mat):
        mat[0, 0] = 7
    else:
        mat[0, 0] = 7


def refLadder(cx, dim):
    low = [[0]*dim for _ in range(dim)]
    for i in range(dim-1):
        low[i][i+1] = cx.sqrt(cx.frac(i+1, 1))
    return cx.cdense(low)


def refDiag(cx, vals):
    return cx.cdense([[v if i == j else 0 for j in range(len(vals))] for i, v in enumerate(vals)])


@harness('C01', quick=[{'lo': 1, 'hi': 6}, {'lo': 7, 'hi': 9}], thorough=[{'lo': k, 'hi': k+1} for k in range(1, 17, 2)],
         bounds='dimension 1..9 (thorough 1..16), sparse and dense')
def ladder(cx, lo, hi):
    dim = cx.pick(cx.int('dim', lo, hi))
    sparse = cx.bool('sparse')
    o = cx.ops
    x = cx.complex('x')
    a, ad, n, one = o.destroy(dim, sparse), o.create(dim, sparse), o.number(dim, sparse), o.identity(dim, sparse)
    for mat in (a, ad, n, one):
        cx.check(bool(cx.issparse(mat)) == sparse, 'sparse flag decides the container')
        cx.check(tuple(mat.shape) == (dim, dim), 'shape')
    ref = refLadder(cx, dim)
    cx.equal(x*cx.dense(a), x*ref, 'destroy lowers with sqrt(n)')
    cx.equal(x*ad, x*cx.dag(a), 'create is the adjoint of destroy')
    cx.equal(ad @ a, n, 'number = create destroy')
    cx.equal(n, refDiag(cx, list(range(dim))), 'number is diagonal 0..d-1')
    cx.equal(one, refDiag(cx, [1]*dim), 'identity')
    comm = cx.dense(a @ ad - ad @ a)
    cx.equal(comm, refDiag(cx, [1]*(dim-1) + [1-dim]), 'truncated commutator')
    cx.equal(n @ a - a @ n, -1*a, '[n, a] = -a')
    for func in (o.destroy, o.create, o.number, o.identity):
        first = func(dim, sparse)
        keep = cx.dense(func(dim, sparse)).copy()
        spoil(cx, first)
        cx.equal(func(dim, sparse), keep, 'every call returns a fresh matrix')


@harness('C01', bounds='the 2-dimensional operators, sparse and dense')
def pauli(cx):
    o = cx.ops
    sparse = cx.bool('sparse')
    theta = cx.real('theta')
    x, y, z, p, m = (f(sparse) for f in (o.sigmax, o.sigmay, o.sigmaz, o.sigmap, o.sigmam))
    for mat in (x, y, z, p, m):
        cx.check(bool(cx.issparse(mat)) == sparse, 'sparse flag decides the container')
    cx.equal(z, [[1, 0], [0, -1]] if False else cx.cdense([[1, 0], [0, -1]]), 'sigma_z')
    one = cx.cdense([[1, 0], [0, 1]])
    for s in (x, y, z):
        cx.equal(s @ s, one, 'Pauli squares are the identity')
        cx.equal(cx.dag(s), s, 'Pauli operators are Hermitian')
    cx.equal(theta*(x @ y), theta*1j*z, 'sx sy = i sz')
    cx.equal(y @ z, 1j*x, 'sy sz = i sx')
    cx.equal(z @ x, 1j*y, 'sz sx = i sy')
    cx.equal(p, 0.5*(x + 1j*y), 's+ = (sx + i sy)/2')
    cx.equal(m, 0.5*(x - 1j*y), 's- = (sx - i sy)/2')
    for func in (o.sigmax, o.sigmay, o.sigmaz, o.sigmap, o.sigmam):
        first = func(sparse)
        keep = cx.dense(func(sparse)).copy()
        spoil(cx, first)
        cx.equal(func(sparse), keep, 'every call returns a fresh matrix')


@harness('C01', quick=[{'lo': 1, 'hi': 6}, {'lo': 7, 'hi': 8}], thorough=[{'lo': k, 'hi': k+1} for k in range(1, 15, 2)],
         bounds='spin dimension 2j+1 in 1..8 (thorough 1..14), given as j or as the dimension, sparse and dense')
def spin(cx, lo, hi):
    dim = cx.pick(cx.int('dim', lo, hi))
    isDim = cx.bool('isDim')
    sparse = cx.bool('sparse')
    o = cx.ops
    j = cx.frac(dim-1, 2)
    arg = dim if isDim else j
    t = cx.real('t')
    mats = {name: getattr(o, name)(arg, sparse=sparse, isDim=isDim) for name in ('Jx', 'Jy', 'Jz', 'Jp', 'Jm', 'Js')}
    for name, mat in mats.items():
        cx.check(bool(cx.issparse(mat)) == sparse, 'sparse flag decides the container')
        cx.check(tuple(mat.shape) == (dim, dim), name + ' shape')
    jx, jy, jz, jp, jm, js = (mats[k] for k in ('Jx', 'Jy', 'Jz', 'Jp', 'Jm', 'Js'))
    one = refDiag(cx, [1]*dim)
    cx.equal(cx.dense(jz), refDiag(cx, [j-k for k in range(dim)]), 'Jz diagonal j..-j')
    cx.equal(cx.dag(jp), jm, 'J- is the adjoint of J+')
    cx.equal(t*jp, t*(jx + 1j*jy), 'J+ = Jx + i Jy')
    cx.equal(t*jm, t*(jx - 1j*jy), 'J- = Jx - i Jy')
    cx.equal(jx @ jy - jy @ jx, 1j*jz, '[Jx, Jy] = i Jz')
    cx.equal(jy @ jz - jz @ jy, 1j*jx, '[Jy, Jz] = i Jx')
    cx.equal(jz @ jx - jx @ jz, 1j*jy, '[Jz, Jx] = i Jy')
    cx.equal(cx.dense(js), j*(j+1)*one, 'J^2 = j(j+1)')
    ref = [[0]*dim for _ in range(dim)]
    for k in range(dim-1):
        ref[k][k+1] = cx.sqrt(cx.frac((k+1)*(dim-1-k), 1))
    cx.equal(cx.dense(jp), cx.cdense(ref), 'J+ has non-negative entries')
    first = o.Jz(arg, sparse=sparse, isDim=isDim)
    spoil(cx, first)
    cx.equal(o.Jz(arg, sparse=sparse, isDim=isDim), jz, 'every call returns a fresh matrix')
    if dim == 2:
        cx.equal(2*jx, o.sigmax(sparse), 'spin half is half the Pauli matrices')
        cx.equal(2*jy, o.sigmay(sparse), 'spin half is half the Pauli matrices')
        cx.equal(2*jz, o.sigmaz(sparse), 'spin half is half the Pauli matrices')


@harness('C01', quick=[{'hi': 5}], thorough=[{'hi': 8}],
         bounds='dimension 2..5 (thorough ..8), powers 1..4, sparse and dense')
def powers(cx, hi):
    o = cx.ops
    dim = cx.pick(cx.int('dim', 2, hi))
    power = cx.pick(cx.int('power', 1, 4))
    sparse = cx.bool('sparse')
    op = cx.choice('op', ['destroy', 'create', 'number', 'Jx', 'Jz', 'sigmax', 'sigmay', 'sigmap'])
    func = getattr(o, op)
    if op.startswith('sigma'):
        base = func(sparse)
        got = o.operatorPow(func, dim, power, sparse)
    else:
        base = func(dim, sparse)
        got = o.operatorPow(func, dim, power, sparse)
    want = cx.dense(base)
    for _ in range(power-1):
        want = want @ cx.dense(base)
    cx.check(bool(cx.issparse(got)) == sparse, 'sparse flag decides the container')
    cx.equal(cx.dense(got), want, 'operatorPow is the matrix power')
    par = o.paritySUM(dim, sparse)
    cx.check(bool(cx.issparse(par)) == sparse, 'sparse flag decides the container')
    par = cx.dense(par)
    cx.equal(par, refDiag(cx, [(-1)**k for k in range(dim)]), 'paritySUM alternates')
    cx.equal(o.parityEXP(o.number(dim, sparse)), par, 'parityEXP of the number operator is the parity')


@harness('C01', quick=[{'hi': 4}], thorough=[{'hi': 7}],
         bounds='dimension 2..4 (thorough ..7), any complex displacement or squeezing')
def exponentials(cx, hi):
    o = cx.ops
    dim = cx.pick(cx.int('dim', 2, hi))
    sparse = cx.bool('sparse')
    alpha = cx.complex('alpha')
    low = refLadder(cx, dim)
    up = cx.dag(low)
    gen = alpha*up - alpha.conjugate()*low
    got = o.displacement(alpha, dim, sparse)
    cx.check(bool(cx.issparse(got)) == sparse, 'sparse flag decides the container')
    cx.equal(cx.dense(got), cx.expm(gen), 'displacement = exp(alpha a+ - conj(alpha) a)')
    gen = 0.5*(alpha.conjugate()*(low @ low) - alpha*(up @ up))
    got = o.squeeze(alpha, dim, sparse)
    cx.check(bool(cx.issparse(got)) == sparse, 'sparse flag decides the container')
    cx.equal(cx.dense(got), cx.expm(gen), 'squeeze = exp((conj(alpha) a^2 - alpha a+^2)/2)')
    ham = cx.matrix('h', dim, kind='diag', sparse=sparse)
    got = o.parityEXP(ham)
    cx.check(bool(cx.issparse(got)) == sparse, 'parityEXP keeps the container')
    cx.equal(cx.dense(got), cx.expm(1j*cx.pi*cx.dense(ham)), 'parityEXP = exp(i pi H)')


@harness('C01', quick=[{'hi': 3}], thorough=[{'hi': 4}],
         bounds='operator dimension 1..3, dimensions before and after 1..3 (thorough ..4), any complex entries')
def composite(cx, hi):
    o = cx.ops
    dim = cx.pick(cx.int('dim', 1, hi))
    dimB = cx.pick(cx.int('before', 1, hi))
    dimA = cx.pick(cx.int('after', 1, hi))
    sparse = cx.bool('sparse')
    op = cx.matrix('m', dim, sparse=sparse)
    keep = cx.dense(op).copy()
    got = cx.dense(o.compositeOp(op, dimB, dimA))
    total = dimB*dim*dimA
    want = [[0]*total for _ in range(total)]
    dns = cx.dense(op)
    for b in range(dimB):
        for i in range(dim):
            for j in range(dim):
                for a in range(dimA):
                    want[(b*dim+i)*dimA+a][(b*dim+j)*dimA+a] = dns[i, j]
    cx.equal(got, cx.cdense(want), 'compositeOp embeds between identities')
    if dimA == 1:
        cx.equal(cx.dense(o.compositeOp(op, dimB)), got, 'nothing after it by default')
        if dimB == 1:
            cx.equal(cx.dense(o.compositeOp(op)), got, 'nothing before it by default')
    if dimB == 1:
        cx.equal(cx.dense(o.compositeOp(op, dimA=dimA)), got, 'nothing before it by default')
    cx.equal(op, keep, 'the operator is not changed')


@harness('C01', bounds='dimension 2..4, every operator, without the optional arguments')
def defaults(cx):
    o = cx.ops
    dim = cx.pick(cx.int('dim', 2, 4))
    alpha = cx.complex('alpha')
    for name in ('sigmax', 'sigmay', 'sigmaz', 'sigmap', 'sigmam'):
        got = getattr(o, name)()
        cx.check(bool(cx.issparse(got)), 'sparse by default')
        cx.equal(got, getattr(o, name)(True), 'same operator')
    for name in ('destroy', 'create', 'number', 'identity', 'paritySUM'):
        got = getattr(o, name)(dim)
        cx.check(bool(cx.issparse(got)), 'sparse by default')
        cx.equal(got, getattr(o, name)(dim, True), 'same operator')
    for name in ('Jx', 'Jy', 'Jz', 'Jp', 'Jm', 'Js'):
        got = getattr(o, name)(cx.frac(dim-1, 2))
        cx.check(bool(cx.issparse(got)), 'sparse by default')
        cx.equal(got, getattr(o, name)(dim, sparse=True, isDim=True), 'j by default')
    for name in ('displacement', 'squeeze'):
        got = getattr(o, name)(alpha, dim)
        cx.check(bool(cx.issparse(got)), 'sparse by default')
        cx.equal(got, getattr(o, name)(alpha, dim, True), 'same operator')
    got = o.operatorPow(o.number, dim, 2)
    cx.check(bool(cx.issparse(got)), 'sparse by default')
    cx.equal(got, o.operatorPow(o.number, dim, 2, True), 'same operator')
