"""Linear-algebra primitives: tensor products, adjoints, inner and outer products, traces and matrix powers."""
from symx.harness import harness

ASSUMPTIONS = ['matrix and ket entries are free complex numbers; dimensions, factor counts and containers are '
               'enumerated by the solver within the stated ranges']


def refKron(cx, left, right):
    left, right = cx.dense(left), cx.dense(right)
    rl, cl = left.shape
    rr, cr = right.shape
    out = [[0]*(cl*cr) for _ in range(rl*rr)]
    for i in range(rl):
        for j in range(cl):
            for k in range(rr):
                for m in range(cr):
                    out[i*rr+k][j*cr+m] = left[i, j]*right[k, m]
    return cx.cdense(out)


@harness('C02', quick=[{'n': 1}, {'n': 2}, {'n': 3}], thorough=[{'n': 1}, {'n': 2}, {'n': 3}, {'n': 4}],
         bounds='1..3 factors (thorough ..4) of dimension 1..3 (1..2 for three or more factors), operators or kets, '
                'sparse, dense or mixed, integer first factor')
def tensor(cx, n):
    hi = 3 if n < 3 else 2
    kets = cx.bool('kets')
    facs, ref = [], None
    intFirst = n > 1 and not kets and cx.bool('intFirst')
    for k in range(n):
        dim = cx.pick(cx.int(f'd{k}', 1, hi))
        if k == 0 and intFirst:
            facs.append(dim)
            ref = cx.dense(cx.eye(dim))
            continue
        sparse = cx.bool(f's{k}')
        mat = cx.ket(f'm{k}', dim, sparse) if kets else cx.matrix(f'm{k}', dim, sparse=sparse)
        facs.append(mat)
        ref = cx.dense(mat) if ref is None else refKron(cx, ref, mat)
    keep = [None if isinstance(f, int) else cx.dense(f).copy() for f in facs]
    got = cx.la.tensorProd(*facs)
    cx.equal(got, ref, 'tensor product')
    for f, k in zip(facs, keep):
        if k is not None:
            cx.equal(f, k, 'the factors are not changed')


@harness('C02', quick=[{'hi': 2}, {'hi': 3}], thorough=[{'hi': 2}, {'hi': 3}, {'hi': 4}],
         bounds='rectangular matrices and kets up to 3 (thorough 4)')
def products(cx, hi):
    la = cx.la
    sparse = cx.bool('sparse')
    rows = cx.pick(cx.int('rows', 1, hi))
    cols = cx.pick(cx.int('cols', 1, hi))
    mat = cx.matrix('m', rows, cols, sparse=sparse)
    dns = cx.dense(mat).copy()
    adj = cx.dense(la.hc(mat))
    want = [[dns[i, j].conjugate() for i in range(rows)] for j in range(cols)]
    cx.equal(adj, cx.cdense(want), 'adjoint')
    cx.equal(la.hc(la.hc(mat)), dns, 'adjoint is an involution')
    cx.equal(mat, dns, 'input unchanged')
    k1, k2 = cx.ket('a', rows, sparse), cx.ket('b', rows, sparse)
    d1, d2 = cx.dense(k1).copy(), cx.dense(k2).copy()
    dot = 0
    for i in range(rows):
        dot = dot + d2[i, 0].conjugate()*d1[i, 0]
    cx.equal(la.innerProd(k1, k2), dot, 'inner product is conjugate linear in the second ket')
    cx.equal(la.innerProd(k2, k1), dot.conjugate(), 'inner product is conjugate symmetric')
    selfDot = 0
    for i in range(rows):
        selfDot = selfDot + d1[i, 0].conjugate()*d1[i, 0]
    cx.equal(la.innerProd(k1), selfDot, 'inner product with itself')
    nrm = la.norm(k1)
    cx.equal(nrm*nrm, selfDot, 'norm squared is the inner product')
    outer = [[d1[i, 0]*d2[j, 0].conjugate() for j in range(rows)] for i in range(rows)]
    cx.equal(la.outerProd(k1, k2), cx.cdense(outer), 'outer product')
    outer = [[d1[i, 0]*d1[j, 0].conjugate() for j in range(rows)] for i in range(rows)]
    cx.equal(la.outerProd(k1), cx.cdense(outer), 'outer product with itself')
    cx.equal(k1, d1, 'input unchanged')
    cx.equal(k2, d2, 'input unchanged')


@harness('C02', quick=[{'hi': 3}], thorough=[{'hi': 4}],
         bounds='square matrices up to 3 (thorough 4), powers 0..3 (up to 7 for dimension 2, 12 for dimension 1), products of 1..4 factors')
def powers(cx, hi):
    la = cx.la
    sparse = cx.bool('sparse')
    dim = cx.pick(cx.int('dim', 1, hi))
    power = cx.pick(cx.int('power', 0, {1: 12, 2: 7}.get(dim, 3)))
    mat = cx.matrix('m', dim, sparse=sparse, kind='sparsegen' if dim > 2 or power > 4 else 'general')
    dns = cx.dense(mat).copy()
    tr = 0
    for i in range(dim):
        tr = tr + dns[i, i]
    cx.equal(la.trace(mat), tr, 'trace is the sum of the diagonal')
    if power == 0:
        cx.raises(AssertionError, lambda: la._matPower(mat, power), 'power zero is refused')
        return
    want = dns
    for _ in range(power-1):
        want = want @ dns
    cx.equal(la._matPower(mat, power), want, 'matrix power')
    facs = [mat] + [cx.matrix(f'f{k}', dim, sparse=sparse, kind='sparsegen') for k in range(min(power, 4)-1)]
    want = dns
    for f in facs[1:]:
        want = want @ cx.dense(f)
    cx.equal(la._matMulInputs(*facs), want, 'product of the inputs in order')
    cx.equal(mat, dns, 'input unchanged')
