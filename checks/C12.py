"""Hamiltonians of single and composite systems always reflect the current parameters."""
from symx.harness import harness

ASSUMPTIONS = ['operation histories up to the stated length; all frequencies and coupling strengths are free reals']


class Model:
    """what the user has declared, kept beside the real objects"""

    def __init__(self, cx):
        self.cx = cx
        self.subs = []          # [system, dim, [[freq, oper, order, term]]]
        self.coup = []          # [freq, [index], [oper], [order], term]

    def matrix(self, oper, dim, order):
        ops = self.cx.ops
        jops = [ops.Jx, ops.Jy, ops.Jz, ops.Jp, ops.Jm]
        paulis = [ops.sigmax, ops.sigmay, ops.sigmaz, ops.sigmap, ops.sigmam]
        if oper in jops:
            mat = oper(dim, isDim=True)
        elif oper in paulis:
            mat = oper()
        else:
            mat = oper(dim)
        mat = self.cx.dense(mat)
        out = mat
        for _ in range(order-1):
            out = out @ mat
        return out

    def place(self, mats):
        np = self.cx.np
        res = np.eye(1)
        for ind, (_, dim, _) in enumerate(self.subs):
            res = np.kron(res, mats[ind] if ind in mats else np.eye(dim))
        return res

    def total(self):
        tot = 0
        for ind, (_, dim, terms) in enumerate(self.subs):
            for freq, oper, order, _ in terms:
                tot = tot + freq*self.place({ind: self.matrix(oper, dim, order)})
        for freq, where, opers, orders, _ in self.coup:
            prod = None
            for ind, oper, order in zip(where, opers, orders):
                mat = self.place({ind: self.matrix(oper, self.subs[ind][1], order)})
                prod = mat if prod is None else prod @ mat
            tot = tot + freq*prod
        return tot


def number(cx, name, zero=False):
    """any real, zero included only where asked for: every zero is a path of its own"""
    return cx.real(name, nonzero=not zero)


SINGLE = ['frequency', 'dimension', 'operator', 'order', 'newTerm', 'termFrequency', 'removeTerm', 'termObject', 'replaceTerms',
          'resetTerms', 'removeFirst']


@harness('C12', reload=True, quick=[{'steps': 2, 'first': f} for f in SINGLE[:5] + SINGLE[7:10]] + [
    {'steps': 3, 'first': f} for f in ('newTerm+removeFirst', 'newTerm+resetTerms')],
         thorough=[{'steps': 3, 'first': f} for f in SINGLE[:5] + SINGLE[7:10]] + [
             {'steps': 4, 'first': f} for f in ('newTerm+removeFirst', 'newTerm+resetTerms')],
         bounds='one system of dimension 2..3, up to two extra terms, histories of 2 (thorough 3) changes with the '
                'Hamiltonian read or not read between them')
def single(cx, steps, first):
    qg, ops = cx.qg, cx.ops
    given = first.split('+')
    kind = cx.choice('kind', ['Cavity', 'Spin', 'QuantumSystem', 'Qubit'][len(given)-1:3 if steps > 2 else 4:len(given)])
    mod = Model(cx)
    freq = number(cx, 'f0')
    dim = 2 if kind == 'Qubit' else cx.choice('dim', [2, 3][:3-len(given)])
    oper = {'Cavity': ops.number, 'Spin': ops.Jz, 'Qubit': ops.Jz, 'QuantumSystem': ops.number}[kind]
    if kind == 'Qubit':
        sys = qg.Qubit(frequency=freq)
    elif kind == 'QuantumSystem':
        sys = qg.QuantumSystem(dimension=dim, operator=oper, frequency=freq)
    else:
        sys = getattr(qg, kind)(dimension=dim, frequency=freq)
    mod.subs = [[sys, dim, [[freq, oper, 1, None]]]]
    sub = mod.subs[0]
    cx.equal(sys.totalHamiltonian, mod.total(), 'first reading')
    for step in range(steps):
        what = given[step] if step < len(given) else cx.choice(f'op{step}', SINGLE)
        new = number(cx, f'v{step}', zero=step == 0 and steps < 3 and what != 'newTerm')
        terms = sub[2]
        if what == 'frequency':
            sys.frequency = new
            terms[0][0] = new
        elif what == 'dimension':
            if kind == 'Qubit':
                return
            sys.dimension = sub[1] = 5-sub[1]
        elif what == 'operator':
            oper = ops.Jx if terms[0][1] is not ops.Jx else ops.Jy
            sys.operator = terms[0][1] = oper
        elif what == 'order':
            sys.order = terms[0][2] = 3-terms[0][2]
        elif what == 'newTerm':
            oper = cx.choice(f'o{step}', [ops.create, ops.Jx])
            term = sys.createTerm(operator=oper, frequency=new, order=2)
        elif what in ('termObject', 'replaceTerms', 'resetTerms'):
            term = qg.QTerm(qSystem=sys, operator=ops.Jx, frequency=new)
            if what == 'termObject':
                sys.addTerms(term)
            elif what == 'replaceTerms':
                sys.terms = term
                terms.clear()
            else:
                sys.resetTerms()
                terms.clear()
                if cx.bool(f'between{step}'):
                    cx.equal(sys.totalHamiltonian, 0, 'no terms')
                sys.addTerms([term])
            terms.append([new, ops.Jx, 1, term])
        elif what == 'removeFirst':
            if len(terms) == 1:
                return
            term = sys._firstTerm if terms[0][3] is None else terms[0][3]
            sys.removeTerm(cx.choice(f'by{step}', [term, str(term.name), [term]][:4-steps]))
            del terms[0]
        if what == 'newTerm':
            terms.append([new, oper, 2, term])
        elif what == 'termFrequency':
            if terms[-1][3] is None:
                return
            terms[-1][3].frequency = terms[-1][0] = new
        elif what == 'removeTerm':
            if len(terms) == 1:
                return
            sys.removeTerm(terms.pop()[3])
        cx.check(len(sys.terms) == len(terms), 'the terms are those that were added and not removed')
        if cx.bool(f'read{step}') or step == steps-1:
            cx.equal(sys.totalHamiltonian, mod.total(), 'Hamiltonian is the sum of its current terms')


def build(cx, num, mod, coupled=True):
    qg, ops = cx.qg, cx.ops
    comp = qg.QuantumSystem()
    freqs = [number(cx, f'f{i}') for i in range(num)]
    opers = [ops.number, ops.Jz, ops.number]
    for ind in range(num):
        dim = [2, 2, 2][ind]
        sys = (qg.Spin if ind == 1 else qg.Cavity)(dimension=dim, frequency=freqs[ind])
        comp.addSubSys(sys)
        mod.subs.append([sys, dim, [[freqs[ind], opers[ind], 1, None]]])
    if coupled:
        couple(cx, comp, mod, 0, 1, number(cx, 'g'), [ops.create, ops.Jm])
    return comp


def couple(cx, comp, mod, ind1, ind2, freq, opers):
    connect(cx, comp, mod, [ind1, ind2], freq, opers)


def connect(cx, comp, mod, inds, freq, opers):
    term = comp.createTerm(operator=list(opers), frequency=freq, qSystem=[mod.subs[i][0] for i in inds])
    mod.coup.append([freq, list(inds), list(opers), [1 for _ in inds], term])


def change(cx, comp, mod, what, step):
    """apply one change to the real objects and to the model; False when it does not apply"""
    qg, ops = cx.qg, cx.ops
    new = number(cx, f'v{step}', zero=step == 0)
    if what == 'subFrequency':
        sub = cx.choice(f'w{step}', mod.subs)
        sub[0].frequency = sub[2][0][0] = new
    elif what == 'dimension':
        sub = cx.choice(f'w{step}', mod.subs)
        sub[0].dimension = sub[1] = 5-sub[1]
    elif what == 'subOperator':
        sub = mod.subs[0]
        oper = ops.Jx if sub[2][0][1] is not ops.Jx else ops.number
        sub[0].operator = sub[2][0][1] = oper
    elif what == 'subOrder':
        sub = mod.subs[-1]
        sub[0].order = sub[2][0][2] = 3-sub[2][0][2]
    elif what == 'subTerm':
        sub = mod.subs[-1]
        term = sub[0].createTerm(operator=ops.Jx, frequency=new)
        sub[2].append([new, ops.Jx, 1, term])
    elif what in ('coupling', 'couplingOperator', 'couplingOrder', 'removeTerm'):
        if not mod.coup:
            return False
        cou = mod.coup[-1]
        if what == 'coupling':
            cou[4].frequency = cou[0] = new
        elif what == 'couplingOperator':
            cou[2] = ([ops.create, ops.Jm] if ops.Jx in cou[2] else [ops.number, ops.Jx]) + cou[2][2:]
            cou[4].operator = (tuple if step else list)(cou[2])
        elif what == 'couplingOrder':
            cou[3] = ([2, 1] if cou[3][0] == 1 else [1, 1]) + cou[3][2:]
            cou[4].order = (list if step else tuple)(cou[3])
        else:
            comp.removeTerm(cou[4])
            mod.coup.pop()
    elif what == 'removeSubTerm':
        sub = mod.subs[-1]
        if len(sub[2]) == 1:
            term = sub[0].createTerm(operator=ops.Jx, frequency=new)
            sub[2].append([new, ops.Jx, 1, term])
            cx.equal(comp.totalHamiltonian, mod.total(), 'Hamiltonian is the sum of its current terms')
        which = cx.choice(f'w{step}', [0, -1]) if step == 0 else 0
        term = sub[2][which][3] or sub[0]._firstTerm
        (comp if step else cx.choice(f'by{step}', [comp, sub[0], mod.subs[0][0]])).removeTerm(term)
        del sub[2][which]
    elif what == 'newCoupling':
        couple(cx, comp, mod, len(mod.subs)-1, 0, new, [ops.Jp, ops.destroy])
    elif what == 'wideCoupling':        # of three sub-systems, or one of them twice
        num = len(mod.subs)
        connect(cx, comp, mod, [num-1, 0, num-1 if num < 3 else 1], new, [ops.create, ops.Jx, ops.Jp])
    elif what == 'addSubSys':
        if len(mod.subs) > 2:
            return False
        sys = qg.Cavity(dimension=2, frequency=new)
        comp.addSubSys(sys)
        mod.subs.append([sys, 2, [[new, ops.number, 1, None]]])
    elif what == 'removeSubSys':
        if len(mod.subs) < 2:
            return False
        where = cx.choice(f'w{step}', list(range(len(mod.subs))))
        comp.removeSubSys(mod.subs[where][0])
        del mod.subs[where]
        mod.coup = [[c[0], [i - (i > where) for i in c[1]], c[2], c[3], c[4]] for c in mod.coup if where not in c[1]]
    return True


CHANGES = ['subFrequency', 'dimension', 'subOperator', 'subOrder', 'subTerm', 'coupling', 'couplingOperator',
           'couplingOrder', 'removeTerm', 'newCoupling', 'addSubSys', 'removeSubSys', 'removeSubTerm', 'wideCoupling']


@harness('C12', reload=True, quick=[{'num': 2, 'steps': 1, 'first': f} for f in [None]] +
         [{'num': 2, 'steps': 2, 'first': f} for f in CHANGES] + [{'num': 3, 'steps': 2, 'first': 'wideCoupling'}],
         thorough=[{'num': n, 'steps': k, 'first': f} for f in CHANGES for n, k in ((3, 2), (2, 3))],
         bounds='2 (thorough 3) sub-systems of dimension 2..3 with couplings, histories of up to 2 changes with the '
                'Hamiltonian read or not read between them')
def composite(cx, num, steps, first):
    mod = Model(cx)
    comp = build(cx, num, mod)
    if cx.bool('readFirst'):
        cx.equal(comp.totalHamiltonian, mod.total(), 'first reading')
    for step in range(steps):
        what = first if step == 0 and first else cx.choice(f'op{step}', CHANGES)
        if not change(cx, comp, mod, what, step):
            return
        if step == steps-1 or cx.bool(f'read{step}'):
            cx.equal(comp.totalHamiltonian, mod.total(), 'Hamiltonian is the sum of its current terms')
            dims = 1
            for sub in mod.subs:
                dims *= sub[1]
            cx.check(comp.dimension == dims, 'dimension is the product of the sub-system dimensions')
