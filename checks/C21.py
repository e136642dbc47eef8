"""Thermal quantities."""
from symx.harness import harness

ASSUMPTIONS = ['frequencies, temperatures and matrix entries are free within the stated ranges']


@harness('C21', bounds='any real frequency and nonzero temperature')
def occupation(cx):
    th = cx.load('QuantumToolbox.thermodynamics')
    w, temp = cx.real('w'), cx.real('T', positive=True)
    hbar, kb = cx.choice('consts', [(1, 1), (cx.real('hbar', positive=True), cx.real('kb', positive=True))])
    cx.equal(th.nBarThermal(w, 0), 0, 'no excitations at zero temperature')
    boltz = cx.exp(hbar*w/(kb*temp))
    if cx.bool('zero'):
        cx.raises(ValueError, lambda: th.nBarThermal(0*w, temp), 'zero frequency is refused')
        return
    cx.assume(abs(w) > 0.001)
    cx.assume(boltz != 1)
    nbar = th.nBarThermal(w, temp, hbar, kb)
    cx.equal(nbar*(boltz - 1), 1, 'Bose-Einstein occupation')
    down = th.nBarThermal(-1*w, temp, hbar, kb)
    cx.equal(nbar + 1, -1*down, 'detailed balance')


@harness('C21', bounds='any frequency, positive temperature')
def polarisation(cx):
    th = cx.load('QuantumToolbox.thermodynamics')
    w, temp = cx.real('w'), cx.real('T', positive=True)
    ratio = cx.exp(-1*w/temp)
    cx.assume(ratio > 0)
    pol = th.qubitPolarisation(w, temp)
    cx.equal(pol*(1 + ratio), ratio - 1, 'polarisation is the population difference')
    cx.check(pol < 1, 'bounded')
    cx.check(pol > -1 - 1e-12, 'bounded')


@harness('C21', quick=[{'d': 2}], thorough=[{'d': 2}, {'d': 3}],
         bounds='dimension 2 (thorough ..3), any super-operator, Hamiltonian and state, sparse and dense')
def heat(cx, d):
    th = cx.load('QuantumToolbox.thermodynamics')
    sparse = cx.bool('sparse')
    ham = cx.matrix('h', d, kind='hermitian', sparse=sparse)
    rho = cx.matrix('r', d, kind='hermitian', sparse=cx.bool('sparseState'))
    sup = cx.matrix('l', d*d, kind='general' if d == 2 else 'sparsegen', sparse=sparse)
    dh, dr, dl = (cx.dense(m).copy() for m in (ham, rho, sup))
    vec = [dr[i, j] for j in range(d) for i in range(d)]
    out = [0]*(d*d)
    for k in range(d*d):
        for m in range(d*d):
            out[k] = out[k] + dl[k, m]*vec[m]
    want = 0
    for i in range(d):
        for j in range(d):
            want = want + out[j*d + i]*dh[j, i]
    cx.equal(th.HeatCurrent(sup, ham, rho), want.real, 'heat current is Tr(L(rho) H)')
    for m, k in ((ham, dh), (rho, dr), (sup, dl)):
        cx.equal(m, k, 'inputs are not changed')
    if cx.bool('physical'):
        col = cx.matrix('c', d, sparse=sparse)
        g = cx.real('g')
        lio = cx.ev.Liouvillian(ham, [], None)
        cx.equal(th.HeatCurrent(lio, ham, rho), 0, 'the Hamiltonian part carries no heat')
        dis = g*cx.ev.dissipator(col)
        dc = cx.dense(col)
        dot = g*(dc @ dr @ cx.dag(dc) - 0.5*(cx.dag(dc) @ dc @ dr + dr @ cx.dag(dc) @ dc))
        cx.equal(th.HeatCurrent(dis, ham, rho), cx.la.trace(dot @ dh).real, 'heat of a dissipator')
