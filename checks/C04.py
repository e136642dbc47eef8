"""Vectorisation and super-operators."""
from symx.harness import harness

ASSUMPTIONS = ['operator and state entries are free complex numbers; dimensions and containers are chosen by the solver '
               'within the stated ranges']


@harness('C04', quick=[{'hi': 4}], thorough=[{'hi': 6}], bounds='matrices of dimension 1..4 (thorough ..6)')
def vectorise(cx, hi):
    st = cx.st
    dim = cx.pick(cx.int('dim', 1, hi))
    sparse = cx.bool('sparse')
    mat = cx.matrix('m', dim, sparse=sparse)
    keep = cx.dense(mat).copy()
    vec = st.mat2Vec(mat)
    cx.check(tuple(vec.shape) == (dim*dim, 1), 'a column vector')
    cx.equal(vec, cx.cdense([[keep[i, j]] for j in range(dim) for i in range(dim)]), 'columns are stacked')
    back = st.vec2Mat(vec)
    cx.check(bool(cx.issparse(back)) == sparse, 'container is kept')
    cx.equal(back, keep, 'vec2Mat inverts mat2Vec')
    col = cx.ket('v', dim*dim, sparse)
    want = cx.dense(col).copy()
    cx.equal(st.mat2Vec(st.vec2Mat(col)), want, 'mat2Vec inverts vec2Mat')
    cx.equal(mat, keep, 'the matrix is not changed')
    cx.equal(col, want, 'the vector is not changed')


@harness('C04', quick=[{'d': 1}, {'d': 2}, {'d': 3}], thorough=[{'d': 1}, {'d': 2}, {'d': 3}, {'d': 4}],
         bounds='operators of dimension 1..3 (thorough ..4), sparse and dense')
def superoperators(cx, d):
    ev, st = cx.ev, cx.st
    spA, spB = cx.bool('sparseA'), cx.bool('sparseB')
    a, b, rho = cx.matrix('a', d, sparse=spA), cx.matrix('b', d, sparse=spB), cx.matrix('r', d, sparse=spA)
    da, db, dr = (cx.dense(m).copy() for m in (a, b, rho))
    vec = st.mat2Vec(rho)

    def acts(sup, want, label):
        cx.check(tuple(sup.shape) == (d*d, d*d), label + ' shape')
        cx.equal(st.vec2Mat(cx.dense(sup) @ cx.dense(vec)), want, label)
    ident = cx.choice('identity', [None, cx.eye(d)])
    acts(ev._preSO(a, ident), da @ dr, 'pre super-operator')
    acts(ev._postSO(a, ident), dr @ da, 'post super-operator')
    acts(ev._prepostSO(a, b), da @ dr @ db, 'pre-post super-operator')
    acts(ev._prepostSO(a), da @ dr @ cx.dag(da), 'pre-post super-operator with one operator')
    cx.check(bool(cx.issparse(ev._preSO(a))) == spA, 'container is kept')
    cx.check(bool(cx.issparse(ev._postSO(a))) == spA, 'container is kept')
    cx.check(bool(cx.issparse(ev._prepostSO(a, b))) == spA, 'container is kept')
    for m, keep in ((a, da), (b, db), (rho, dr)):
        cx.equal(m, keep, 'inputs are not changed')


@harness('C04', quick=[{'d': 1}, {'d': 2}, {'d': 3}], thorough=[{'d': 1}, {'d': 2}, {'d': 3}, {'d': 4}],
         bounds='operators of dimension 1..3 (thorough ..4), one or two operators, sparse and dense')
def dissipators(cx, d):
    ev, st = cx.ev, cx.st
    sparse = cx.bool('sparse')
    kind = 'general' if d < 3 else 'sparsegen'
    a, rho = cx.matrix('a', d, sparse=sparse, kind=kind), cx.matrix('r', d, sparse=sparse)
    da, dr = cx.dense(a).copy(), cx.dense(rho).copy()
    two, double = cx.bool('two'), cx.bool('double')
    ident = cx.choice('identity', [None, cx.eye(d)])
    if two:
        b = cx.matrix('b', d, sparse=sparse, kind=kind)
        db = cx.dense(b).copy()
        sup = ev.dissipator(a, b, ident, _double=double)
    else:
        b, db = None, cx.dag(da)
        sup = ev.dissipator(a, identity=ident, _double=double)
    want = (2 if double else 1)*(da @ dr @ db - 0.5*(db @ da @ dr + dr @ db @ da))
    out = st.vec2Mat(cx.dense(sup) @ cx.dense(st.mat2Vec(rho)))
    cx.equal(out, want, 'Lindblad dissipator')
    cx.equal(cx.la.trace(out), 0, 'the dissipator preserves the trace')
    cx.equal(a, da, 'inputs are not changed')
    if two:
        cx.equal(b, db, 'inputs are not changed')
