"""Lindblad generator and open-system propagators."""
from symx.harness import harness

ASSUMPTIONS = ['Hamiltonian, collapse operators, decay rates, states and times are free; the exponential of a matrix that '
               'is not diagonal is uninterpreted, so propagators are compared through their exponents']


def setup(cx, d, ncol, sparse, withH=True, kind=None):
    kind = kind or ('general' if d < 3 else 'sparsegen')
    ham = cx.matrix('h', d, kind='hermitian', sparse=sparse) if withH else None
    cols = [cx.matrix(f'c{k}', d, kind=kind, sparse=sparse) for k in range(ncol)]
    return ham, cols


def lindblad(cx, ham, cols, rates, rho, double):
    out = 0*rho
    if ham is not None:
        h = cx.dense(ham)
        out = out - 1j*(h @ rho - rho @ h)
    for c, g in zip(cols, rates):
        c = cx.dense(c)
        cd = cx.dag(c)
        out = out + (2 if double else 1)*g*(c @ rho @ cd - 0.5*(cd @ c @ rho + rho @ cd @ c))
    return out


@harness('C05', quick=[{'d': 2, 'n': 0}, {'d': 2, 'n': 1}, {'d': 2, 'n': 2}, {'d': 3, 'n': 1}],
         thorough=[{'d': d, 'n': n} for d in (1, 2, 3) for n in (0, 1, 2, 3)] + [{'d': 4, 'n': 1}],
         bounds='dimension 2..3 (thorough 1..4), 0..2 collapse operators (thorough ..3), with and without a Hamiltonian '
                'and explicit decay rates, sparse and dense')
def generator(cx, d, n):
    ev, st = cx.ev, cx.st
    sparse = cx.bool('sparse')
    withH = n == 0 or cx.bool('withH')
    ham, cols = setup(cx, d, n, sparse, withH)
    double = cx.bool('double')
    given = n > 0 and cx.bool('ratesGiven')
    rates = cx.reals('g', n) if given else None
    rho = cx.matrix('r', d, kind='hermitian')
    before = [cx.dense(m).copy() for m in cols] + ([cx.dense(ham).copy()] if withH else [])
    colsArg = cols if n else cx.choice('none', [None, []])
    lio = ev.Liouvillian(ham, colsArg, rates, _double=double)
    out = st.vec2Mat(cx.dense(lio) @ st.mat2Vec(rho))
    want = lindblad(cx, ham, cols, rates or [1]*n, rho, double)
    cx.equal(out, want, 'Liouvillian acts as the Lindblad equation')
    cx.equal(cx.la.trace(out), 0, 'the generator preserves the trace')
    cx.equal(cx.dag(cx.np.asarray(out)), out, 'the generator preserves Hermiticity')
    for m, keep in zip(cols + ([ham] if withH else []), before):
        cx.equal(m, keep, 'inputs are not changed')
    again = ev.Liouvillian(ham, colsArg, rates, _double=double)
    cx.equal(again, lio, 'the same inputs give the same generator')


@harness('C05', quick=[{'d': 2, 'withH': w} for w in (True, False)],
         thorough=[{'d': d, 'withH': w} for d in (2, 3) for w in (True, False)],
         bounds='dimension 2 (thorough ..3), dissipative part given as a ready super-operator or as a pair of operators '
                'beside a plain collapse operator, each sparse or dense, with and without a Hamiltonian')
def mixedCollapse(cx, d, withH):
    ev, st = cx.ev, cx.st
    sparse = cx.bool('sparse')
    kind = 'general' if d < 3 else 'sparsegen'
    ham, cols = setup(cx, d, 1, sparse, withH, kind)
    other = cx.bool('sparseOthers')
    double = cx.bool('double')
    rates = cx.choice('rates', [None, 'given'])
    g = cx.reals('g', 3) if rates else [1, 1, 1]
    a, b = cx.matrix('a', d, kind=kind, sparse=other), cx.matrix('b', d, kind=kind, sparse=other)
    sup = cx.matrix('s', d*d, kind='diag', sparse=other)
    # without a Hamiltonian, the first entry tells the dimension
    order = cx.choice('order', [(0, 1, 2), (2, 1, 0), (2, 0, 1)] + ([(1, 0, 2)] if withH else []))
    items = [cols[0], sup, (a, b)]
    rho = cx.matrix('r', d)
    args = ([items[k] for k in order], [g[k] for k in order] if rates else None)
    lio = ev.Liouvillian(ham, *args, _double=double)
    out = st.vec2Mat(cx.dense(lio) @ st.mat2Vec(rho))
    da, db = cx.dense(a), cx.dense(b)
    want = lindblad(cx, ham, cols, g[:1], rho, double)
    want = want + g[1]*st.vec2Mat(cx.dense(sup) @ st.mat2Vec(rho))
    want = want + (2 if double else 1)*g[2]*(da @ rho @ db - 0.5*(db @ da @ rho + rho @ db @ da))
    cx.equal(out, want, 'each kind of collapse entry contributes its dissipator with its own rate')
    if cx.bool('exponential'):
        t = cx.real('t')
        cx.equal(ev.LiouvillianExp(ham, t, *args, _double=double), cx.expm(cx.np.asarray(cx.dense(lio))*t), 'exp(L t)')


@harness('C05', quick=[{'d': 2, 'n': 1}, {'d': 2, 'n': 2}], thorough=[{'d': d, 'n': n} for d in (2, 3) for n in (1, 2)],
         bounds='dimension 2 (thorough ..3), 1..2 collapse operators, any rates and time')
def propagator(cx, d, n):
    ev = cx.ev
    sparse = cx.bool('sparse')
    withH = cx.bool('withH')
    ham, cols = setup(cx, d, n, sparse, withH)
    given = cx.bool('ratesGiven')
    rates = cx.reals('g', n) if given else None
    t = cx.real('t')
    double = cx.bool('double')
    lio = cx.dense(ev.Liouvillian(ham, cols, rates, _double=double))
    cx.equal(ev.LiouvillianExp(ham, t, cols, rates, exp=False, _double=double), lio, 'exp=False gives the generator')
    cx.equal(ev.LiouvillianExp(ham, t, cols, rates, _double=double), cx.expm(cx.np.asarray(lio)*t), 'exp(L t)')
    if not given and not double:
        cx.equal(ev.LiouvillianExp(ham, collapseOperators=cols), cx.expm(cx.np.asarray(lio)), 'the default time is 1')


@harness('C05', quick=[{'d': 2}], thorough=[{'d': 2}, {'d': 3}, {'d': 4}],
         bounds='dimension 2 (thorough ..4), diagonal Hamiltonians and dephasing (the exponential is then exact), any times')
def dephasing(cx, d):
    ev, st = cx.ev, cx.st
    sparse = cx.bool('sparse')
    ham = cx.matrix('h', d, kind='diag', sparse=sparse)
    col = cx.matrix('c', d, kind='diag', sparse=sparse)
    g = cx.real('g', lo=0)
    t1, t2 = cx.real('t1'), cx.real('t2')
    rho = cx.matrix('r', d, kind='hermitian')
    vec = st.mat2Vec(rho)

    def step(t, v):
        return cx.dense(ev.LiouvillianExp(ham, t, [col], [g])) @ v
    cx.equal(step(t1, step(t2, vec)), step(t1+t2, vec), 'propagators compose over time')
    out = st.vec2Mat(step(t1, vec))
    cx.equal(cx.la.trace(out), cx.la.trace(rho), 'the trace is preserved')
    cx.equal(cx.dag(out), out, 'Hermiticity is preserved')
    h, c = cx.dense(ham), cx.dense(col)
    want = [[0]*d for _ in range(d)]
    for i in range(d):
        for j in range(d):
            rate = -0.5*g*(c[i, i]-c[j, j])*(c[i, i]-c[j, j])
            want[i][j] = rho[i, j]*cx.exp(t1*rate)*cx.exp(-1j*t1*(h[i, i]-h[j, j]))
    cx.equal(out, cx.cdense(want), 'closed form of dephasing')


@harness('C05', quick=[{'d': 2}], thorough=[{'d': 2}, {'d': 3}],
         bounds='dimension 2 (thorough ..3), dephasing in the basis of the Hamiltonian, where the eigensolver is exact')
def stationary(cx, d):
    ev = cx.ev
    sparse = cx.bool('sparse')
    col = cx.matrix('c', d, kind='diag', sparse=sparse)
    ham = cx.matrix('h', d, kind='diag', sparse=sparse) if cx.bool('withH') else None
    rates = [cx.real('g', lo=0)] if cx.bool('ratesGiven') else None
    double = cx.bool('double')
    vals, vecs = ev.steadyState(ham, [col], rates, _double=double) if double else ev.steadyState(ham, [col], rates)
    prop = cx.dense(ev.LiouvillianExp(ham, 1, [col], rates, _double=double))
    cx.check(len(vals) == d*d, 'all values are returned')
    total = 0
    for k in range(d*d):
        vec = cx.dense(vecs[k])
        cx.equal(prop @ vec, vals[k]*vec, 'eigenvectors of the propagator of unit time')
        total = total + vec*vec
        if k:
            cx.check(abs(vals[k-1])*abs(vals[k-1]) <= abs(vals[k])*abs(vals[k]), 'ascending magnitudes')
    cx.equal(total, cx.cdense([[1]]*(d*d)), 'every eigenvector once')
