"""Open-system evolution loop of the toolbox."""
from symx.harness import harness

ASSUMPTIONS = ['states, Hamiltonians, collapse operators and rates are free; the number of steps is chosen by the solver '
               'through the ratio of total time and step; non-diagonal exponentials are uninterpreted']


@harness('C09', quick=[{'d': 2, 'steps': 2}], thorough=[{'d': 2, 'steps': 4}, {'d': 3, 'steps': 2}],
         bounds='dimension 2 (thorough ..3), 0..2 steps (thorough ..4), any time step, kets and density matrices')
def loop(cx, d, steps):
    ev, st = cx.ev, cx.st
    sparse = cx.bool('sparse')
    num = cx.pick(cx.int('steps', 0, steps))
    # multiples of 1/8 are exact floats, so that a total time of exactly num steps stays one when it is replayed
    dt, frac = cx.choice('step', [(cx.frac(cx.int('eighths', 1, 24), 8), 0),
                                  (cx.real('dt', lo=0.125, hi=4), cx.real('rest', lo=0.05, hi=0.9))])
    kind = cx.choice('kind', ['unitary', 'lossy', 'rates', 'noH'])
    ham = None if kind == 'noH' else cx.matrix('h', d, kind='diag', sparse=sparse)
    cols = None if kind == 'unitary' else [cx.matrix('c0', d, kind='diag', sparse=sparse)]
    rates = cx.reals('g', 1) if kind == 'rates' else None
    ket = cx.bool('ket')
    init = cx.ket('p', d, sparse) if ket else cx.matrix('r', d, sparse=sparse)
    keep = cx.dense(init).copy()
    rho = keep @ cx.dag(keep) if ket else keep
    useCalc, forget = cx.bool('calc'), cx.bool('delStates')
    seen = []
    out = ev.evolveOpen(init, (num + frac)*dt, dt, ham, cols, rates, calcFunc=seen.append if useCalc else None,
                        delStates=forget)
    prop = cx.dense(ev.LiouvillianExp(ham, dt, cols if cols is not None else [], rates))
    want = [rho]
    for _ in range(num):
        want.append(st.vec2Mat(prop @ st.mat2Vec(want[-1])))
    if forget:
        cx.check(len(out) == 1, 'only the initial state is returned')
        cx.equal(out[0], rho, 'initial state')
    else:
        cx.check(len(out) == num+1, 'one state per step')
        cx.equal([cx.dense(o) for o in out], want, 'each state is the propagated predecessor')
    if useCalc:
        cx.check(len(seen) == num+1, 'calculation called once per state')
        cx.equal([cx.dense(o) for o in seen], want, 'calculation sees every state')
    cx.equal(init, keep, 'the initial state is not changed')
    for o in want[1:]:
        cx.equal(cx.la.trace(o), cx.la.trace(rho), 'trace preserved')


@harness('C09', quick=[{'d': 2, 'steps': 2}], thorough=[{'d': 2, 'steps': 3}],
         bounds='dimension 2, 1..2 steps (thorough ..3), general Hamiltonian and collapse operator')
def general(cx, d, steps):
    ev, st = cx.ev, cx.st
    sparse = cx.bool('sparse')
    num = cx.pick(cx.int('steps', 1, steps))
    dt = cx.frac(cx.int('eighths', 1, 24), 8)
    ham = cx.matrix('h', d, kind='hermitian', sparse=sparse)
    cols = [cx.matrix('c', d, sparse=sparse)]
    rates = cx.reals('g', 1)
    rho = cx.matrix('r', d)
    double = cx.bool('double')
    out = ev.evolveOpen(rho, num*dt, dt, ham, cols, rates, _double=double)
    prop = cx.expm(cx.np.asarray(cx.dense(ev.Liouvillian(ham, cols, rates, _double=double)))*dt)
    want = [rho]
    for _ in range(num):
        want.append(st.vec2Mat(prop @ st.mat2Vec(want[-1])))
    cx.equal([cx.dense(o) for o in out], want, 'each state is the propagated predecessor')
    if not double:
        more = ev.evolveOpen(rho, num, Hamiltonian=ham, collapseOperators=cols, decayRates=rates)
        unit = cx.expm(cx.np.asarray(cx.dense(ev.Liouvillian(ham, cols, rates))))
        cx.check(len(more) == num + 1, 'the default step is 1')
        cx.equal(cx.dense(more[1]), st.vec2Mat(unit @ st.mat2Vec(rho)), 'the default step is 1')
