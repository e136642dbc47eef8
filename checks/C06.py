"""Unitary propagators."""
from symx.harness import harness

ASSUMPTIONS = ['Hamiltonian entries and times are free; the exponential of a block that is not 1x1 is uninterpreted, so '
               'such propagators are compared through their exponents']


@harness('C06', quick=[{'hi': 3}], thorough=[{'hi': 5}], bounds='dimension 1..3 (thorough ..5), sparse and dense')
def unitary(cx, hi):
    ev = cx.ev
    d = cx.pick(cx.int('dim', 1, hi))
    sparse = cx.bool('sparse')
    ham = cx.matrix('h', d, kind='hermitian', sparse=sparse)
    keep = cx.dense(ham).copy()
    t = cx.real('t')
    got = ev.Unitary(ham, t)
    cx.check(bool(cx.issparse(got)) == sparse, 'container is kept')
    cx.equal(got, cx.expm(-1j*keep*t), 'exp(-i H t)')
    cx.equal(ev.Unitary(ham), cx.expm(-1j*keep), 'the default time is one')
    cx.equal(ev.LiouvillianExp(ham, t), cx.expm(-1j*keep*t), 'no collapse operators: the unitary')
    cx.equal(ham, keep, 'input unchanged')


@harness('C06', quick=[{'hi': 3}], thorough=[{'hi': 6}],
         bounds='diagonal Hamiltonians of dimension 1..3 (thorough ..6), any real times (exact exponentials)')
def diagonal(cx, hi):
    ev = cx.ev
    d = cx.pick(cx.int('dim', 1, hi))
    sparse = cx.bool('sparse')
    ham = cx.matrix('h', d, kind='diag', sparse=sparse)
    t1, t2 = cx.real('t1'), cx.real('t2')
    u1, u2 = ev.Unitary(ham, t1), ev.Unitary(ham, t2)
    cx.equal(u1 @ cx.dag(u1), cx.dense(cx.eye(d)), 'unitarity')
    cx.equal(u1 @ u2, ev.Unitary(ham, t1+t2), 'composition over time')
    cx.equal(ev.Unitary(ham, -1*t1), cx.dag(u1), 'reversal')
    cx.equal(ev.Unitary(ham, 0), cx.dense(cx.eye(d)), 'identity at time zero')
    h = cx.dense(ham)
    want = [[cx.exp(-1j*t1*h[i, i]) if i == j else 0 for j in range(d)] for i in range(d)]
    cx.equal(u1, cx.cdense(want), 'phases')
    psi = cx.ket('p', d)
    out = cx.dense(u1) @ psi
    cx.equal(cx.la.innerProd(out), cx.la.innerProd(psi), 'norms are preserved')
