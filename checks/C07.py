"""State construction."""
from symx.harness import harness

ASSUMPTIONS = ['amplitudes, populations and probabilities are free reals or complex numbers (populations and probabilities '
               'positive); dimensions, excitations and containers are chosen by the solver within the stated ranges']


def unit(cx, dim, k):
    return cx.cdense([[1 if i == k else 0] for i in range(dim)])


def isContainer(cx, mat, sparse, label):
    cx.check(bool(cx.issparse(mat)) == sparse, label + ' container')


@harness('C07', quick=[{'hi': 5}], thorough=[{'hi': 9}], bounds='dimension 1..5 (thorough ..9), every excitation')
def bases(cx, hi):
    st = cx.st
    dim = cx.pick(cx.int('dim', 1, hi))
    k = cx.pick(cx.int('k', 0, dim-1))
    sparse = cx.bool('sparse')
    ket = st.basis(dim, k, sparse)
    isContainer(cx, ket, sparse, 'basis')
    cx.equal(ket, unit(cx, dim, k), 'basis ket')
    bra = st.basisBra(dim, k, sparse)
    cx.equal(bra, unit(cx, dim, k).T, 'basis bra')
    isContainer(cx, bra, sparse, 'bra')
    full = st.completeBasis(dim, sparse)
    cx.check(len(full) == dim, 'one ket per level')
    for i, b in enumerate(full):
        isContainer(cx, b, sparse, 'complete basis')
        cx.equal(b, unit(cx, dim, i), 'complete basis')
    mats = st.completeBasisMat(dimension=dim, sparse=sparse)
    total = 0*cx.dense(cx.eye(dim))
    for i, m in enumerate(mats):
        cx.equal(m, unit(cx, dim, i) @ unit(cx, dim, i).T, 'projectors')
        total = total + cx.dense(m)
    cx.equal(total, cx.dense(cx.eye(dim)), 'projectors resolve the identity')
    mine = st.completeBasis(dim, sparse)
    given = list(mine)
    mats = st.completeBasisMat(compKetBase=given)
    for i, m in enumerate(mats):
        cx.equal(m, unit(cx, dim, i) @ unit(cx, dim, i).T, 'projectors of a given basis')
    cx.equal([cx.dense(a) for a in given], [cx.dense(b) for b in mine], 'the given basis is not changed')
    cx.equal(st.zerosKet(dim, sparse), 0*unit(cx, dim, 0), 'zero ket')
    cx.equal(st.zerosMat(dim, sparse), 0*cx.dense(cx.eye(dim)), 'zero matrix')
    isContainer(cx, st.zerosKet(dim, sparse), sparse, 'zero ket')
    isContainer(cx, st.zerosMat(dim, sparse), sparse, 'zero matrix')
    for i, m in enumerate(st.completeBasisMat(dimension=dim, sparse=sparse)):
        isContainer(cx, m, sparse, 'projectors')
    vec = st.mat2Vec(mats[k])
    cx.check(tuple(vec.shape) == (dim*dim, 1), 'a column')
    cx.equal(st.vec2Mat(vec), mats[k], 'there and back')
    for got, want in ((st.basis(dim, k), ket), (st.basisBra(dim, k), bra), (st.zerosKet(dim), 0*unit(cx, dim, 0)),
                      (st.zerosMat(dim), 0*cx.dense(cx.eye(dim))), (st.completeBasis(dim)[k], ket),
                      (st.completeBasisMat(dimension=dim)[k], unit(cx, dim, k) @ unit(cx, dim, k).T),
                      (st.superPos(dim, k), ket), (st.compositeState([dim], [k]), ket)):
        cx.check(bool(cx.issparse(got)), 'sparse by default')
        cx.equal(got, cx.dense(want), 'the same by default')
    cx.raises(ValueError, lambda: st.completeBasisMat(), 'nothing to make a basis from')
    first = st.basis(dim, k, sparse)
    first[0, 0] = 5
    cx.equal(st.basis(dim, k, sparse), unit(cx, dim, k), 'every call returns a fresh ket')


@harness('C07', quick=[{'n': 1, 'hi': 4}, {'n': 2, 'hi': 4}, {'n': 3, 'hi': 4}],
         thorough=[{'n': n, 'hi': 6} for n in (1, 2, 3, 4)],
         bounds='dimension 2..4 (thorough ..6), superpositions of up to 3 (thorough 4) levels given as integer, list or '
                'dictionary of populations or complex amplitudes')
def superpositions(cx, n, hi):
    st = cx.st
    dim = cx.pick(cx.int('dim', max(n, 2), hi))
    levels = []
    for k in range(n):
        levels.append(cx.pick(cx.int(f'l{k}', levels[-1]+1 if levels else 0, dim-n+k)))
    sparse = cx.bool('sparse')
    form = cx.choice('form', ['list', 'pop', 'amp'] + (['int'] if n == 1 else []))
    order = levels[::-1] if cx.bool('reverse') else levels
    if form == 'int':
        exc, popu, amps, total = levels[0], True, [1], 1
    elif form == 'list':
        exc, popu, amps, total = list(order), True, [1]*n, n
    elif form == 'pop':
        pops = cx.reals('p', n, lo=0)
        total = sum(pops[1:], pops[0])
        cx.assume(total > 0)
        exc, popu = dict(zip(order, pops)), True
        amps = [cx.sqrt(p) for p in pops]
    else:
        amps = cx.complexes('a', n)
        total = 0
        for a in amps:
            total = total + (a*a.conjugate()).real
        cx.assume(total > 0)
        exc, popu = dict(zip(order, amps)), False
    ket = st.superPos(dim, exc, popu, sparse)
    isContainer(cx, ket, sparse, 'superposition')
    cx.check(tuple(ket.shape) == (dim, 1), 'a column vector')
    dns = cx.dense(ket)
    scale = cx.sqrt(total) if total != 1 else 1
    want = [[0] for _ in range(dim)]
    for lev, a in zip(order, amps):
        want[lev] = [a]
    cx.equal(dns*scale, cx.cdense(want), 'normalised superposition with the requested weights')
    nrm = 0
    for i in range(dim):
        nrm = nrm + (dns[i, 0]*dns[i, 0].conjugate()).real
    cx.equal(nrm, 1, 'unit norm')
    if isinstance(exc, dict):
        cx.check(list(exc.keys()) == list(order), 'the dictionary is not changed')
        cx.equal(list(exc.values()), pops if popu else amps, 'the dictionary is not changed')


@harness('C07', quick=[{'hi': 3}], thorough=[{'hi': 4}],
         bounds='kets and matrices of dimension 2..3 (thorough ..4), any complex entries')
def normalisation(cx, hi):
    st = cx.st
    dim = cx.pick(cx.int('dim', 2, hi))
    sparse = cx.bool('sparse')
    ket = cx.ket('p', dim, sparse, nonzero=True)
    keep = cx.dense(ket).copy()
    total = 0
    for i in range(dim):
        total = total + (keep[i, 0]*keep[i, 0].conjugate()).real
    got = st.normalise(ket)
    cx.equal(cx.dense(got)*cx.sqrt(total), keep, 'normalised ket')
    cx.equal(ket, keep, 'the ket is not changed')
    mat = cx.matrix('m', dim, sparse=sparse)
    keepM = cx.dense(mat).copy()
    tr = cx.la.trace(keepM)
    cx.assume((tr*tr.conjugate()).real > 0)
    cx.equal(cx.dense(st.normalise(mat))*tr, keepM, 'normalised matrix has unit trace')
    cx.equal(mat, keepM, 'the matrix is not changed')
    rho = st.densityMatrix(ket)
    cx.equal(rho, keep @ cx.dag(keep), 'density matrix of a ket')
    isContainer(cx, rho, sparse, 'density matrix')
    cx.equal(st.purity(rho), total*total, 'purity of a pure state')
    want = 0
    for i in range(dim):
        for j in range(dim):
            want = want + keepM[i, j]*keepM[j, i]
    cx.equal(st.purity(mat), want, 'purity is the trace of the square')
    cx.equal(ket, keep, 'the ket is not changed')


@harness('C07', quick=[{'n': 1}, {'n': 2}], thorough=[{'n': 1}, {'n': 2}, {'n': 3}],
         bounds='mixtures of 1..2 (thorough ..3) kets of dimension 2, with and without probabilities')
def mixtures(cx, n):
    st = cx.st
    sparse = cx.bool('sparse')
    kets = [cx.ket(f'k{i}', 2, sparse, nonzero=True) for i in range(n)]
    given = cx.bool('given')
    probs = cx.reals('p', n, positive=True) if given else None
    num = None
    for i, k in enumerate(kets):
        d = cx.dense(k)
        term = d @ cx.dag(d)
        if given:
            term = probs[i]*term
        num = term if num is None else num + term
    tr = cx.la.trace(num)
    rho = cx.dense(st.densityMatrix(kets, probs))
    cx.equal(rho*tr, num, 'normalised probability-weighted mixture')
    cx.equal(cx.dag(rho), rho, 'density matrices are Hermitian')
    w = cx.reals('w', n)
    tot = st.weightedSum([cx.dense(k) for k in kets], w)
    want = 0*cx.dense(kets[0])
    for wi, k in zip(w, kets):
        want = want + wi*cx.dense(k)
    cx.equal(tot, want, 'weighted sum')


@harness('C07', quick=[{'n': 1}, {'n': 2}], thorough=[{'n': 1}, {'n': 2}, {'n': 3}],
         bounds='1..2 (thorough ..3) sub-systems of dimension 2..3')
def composites(cx, n):
    st = cx.st
    sparse = cx.bool('sparse')
    dims, excs, ref = [], [], None
    for i in range(n):
        dim = cx.pick(cx.int(f'd{i}', 2, 3 if n < 3 else 2))
        kind = cx.choice(f'e{i}', ['int', 'list', 'pop'])
        if kind == 'int':
            lev = cx.pick(cx.int(f'l{i}', 0, dim-1))
            exc, one = lev, unit(cx, dim, lev)
        elif kind == 'list':
            exc = [0, dim-1]
            one = (unit(cx, dim, 0) + unit(cx, dim, dim-1))/cx.sqrt(cx.frac(2, 1))
        else:
            p, q = cx.real(f'p{i}', positive=True), cx.real(f'q{i}', positive=True)
            exc = {dim-1: p, 0: q}
            one = (unit(cx, dim, dim-1)*cx.sqrt(p) + unit(cx, dim, 0)*cx.sqrt(q))/cx.sqrt(p+q)
        dims.append(dim)
        excs.append(exc)
        if ref is None:
            ref = one
        else:
            ref = cx.cdense([[a*b] for a in ref[:, 0] for b in one[:, 0]])
    got = st.compositeState(dims, excs, sparse)
    isContainer(cx, got, sparse, 'composite state')
    cx.equal(got, ref, 'composite state is the ordered tensor product')


@harness('C07', bounds='the four Bell states under each of their names')
def bell(cx):
    st = cx.st
    sparse = cx.bool('sparse')
    x = cx.real('x')
    names = {'Phi+': ('00', [1, 0, 0, 1]), 'Phi-': ('01', [1, 0, 0, -1]), 'Psi+': ('10', [0, 1, 1, 0]),
             'Psi-': ('11', [0, 1, -1, 0])}
    name = cx.choice('name', sorted(names))
    alias, amps = names[name]
    for nam in (name, alias):
        got = st.BellStates(nam, sparse)
        isContainer(cx, got, sparse, 'Bell state')
        cx.equal(x*cx.sqrt(cx.frac(2, 1))*cx.dense(got), x*cx.cdense([[a] for a in amps]), 'Bell state')
    cx.equal(st.BellStates(sparse=sparse), st.BellStates('Phi+', sparse), 'default is Phi+')
