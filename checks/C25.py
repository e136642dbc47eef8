"""Copies are independent equals, and systems compose with +, - and *."""
from symx.harness import harness

ASSUMPTIONS = ['frequencies and couplings are free non-zero reals; systems are built by the solver\'s choice of kinds, '
               'terms and initial states within the stated bounds']


class Spec:
    """what a system was declared to be"""

    def __init__(self, kind, dim=None, kids=()):
        self.kind, self.ownDim, self.kids = kind, dim, list(kids)
        self.terms = []         # [freq, [(leaf, oper, order)], handle]
        self.init = None

    def clone(self):
        table = {}

        def walk(old):
            new = Spec(old.kind, old.ownDim, [walk(k) for k in old.kids])
            table[id(old)] = new
            new.init = old.init
            return new
        top = walk(self)

        def terms(old):
            table[id(old)].terms = [[f, [(table[id(s)], o, n) for s, o, n in parts], None] for f, parts, _ in old.terms]
            for kid in old.kids:
                terms(kid)
        terms(self)
        return top

    def leaves(self):
        return [self] if not self.kids else [lf for kid in self.kids for lf in kid.leaves()]

    @property
    def dim(self):
        out = 1
        for lf in self.leaves():
            out *= lf.ownDim
        return out

    def nodes(self):
        yield self
        for kid in self.kids:
            yield from kid.nodes()

    def matrix(self, cx):
        """total Hamiltonian, all terms of all parts embedded"""
        tot = 0
        for part in self.nodes():
            for freq, parts, _ in part.terms:
                prod = None
                for sub, oper, order in parts:
                    mat = self.embed(cx, sub, power(cx, oper, sub.dim, order))
                    prod = mat if prod is None else prod @ mat
                tot = tot + freq*prod
        return tot

    def embed(self, cx, sub, mat):
        res = cx.eye(1)
        inside = sub.leaves()
        done = False
        for lf in self.leaves():
            if any(lf is one for one in inside):
                if not done:
                    res = cx.sp.kron(res, mat)
                    done = True
            else:
                res = cx.sp.kron(res, cx.eye(lf.ownDim))
        return res


def power(cx, oper, dim, order):
    ops = cx.ops
    if any(oper is o for o in (ops.Jx, ops.Jy, ops.Jz, ops.Jp, ops.Jm)):
        mat = oper(dim, isDim=True)
    elif any(oper is o for o in (ops.sigmax, ops.sigmay, ops.sigmaz, ops.sigmap, ops.sigmam)):
        mat = oper()
    else:
        mat = oper(dim)
    out = mat
    for _ in range(order-1):
        out = out @ mat
    return out


def single(cx, name, kind, extra=0, order=1):
    """a single system and its description"""
    qg, ops = cx.qg, cx.ops
    freq = cx.real(f'{name}f', nonzero=True)
    if kind == 'qubit':
        sys, dim, oper = qg.Qubit(frequency=freq), 2, ops.Jz
    elif kind == 'spin':
        sys, dim, oper = qg.Spin(jValue=1, frequency=freq), 3, ops.Jz
    elif kind == 'cavity':
        sys, dim, oper = qg.Cavity(dimension=3, frequency=freq), 3, ops.number
    else:
        sys, dim, oper = qg.QuantumSystem(dimension=2, frequency=freq, operator=ops.sigmax), 2, ops.sigmax
    spec = Spec(kind, dim)
    if order != 1:
        sys.order = order
    spec.terms.append([freq, [(spec, oper, order)], None])
    for k in range(extra):
        freq = cx.real(f'{name}t{k}', nonzero=True)
        oper = [ops.Jx, ops.Jy][k]
        handle = sys.createTerm(operator=oper, frequency=freq, order=k+1)
        spec.terms.append([freq, [(spec, oper, k+1)], handle])
    return sys, spec


def initial(cx, sys, spec, kind):
    """set an initial state; returns the vector"""
    dim = spec.dim
    if kind == 'index':
        val = cx.choice('level', list(range(dim)))
        vec = [1 if i == val else 0 for i in range(dim)]
    elif kind == 'list':
        val = [0, dim-1]
        vec = [1/cx.sqrt(2) if i in val else 0 for i in range(dim)]
    elif kind == 'dict':
        amp = cx.real('amp', positive=True)
        val = {0: amp, dim-1: 1}
        norm = cx.sqrt(1 + amp) if not sys._inpCoef else cx.sqrt(1 + amp*amp)
        vec = [((cx.sqrt(amp) if not sys._inpCoef else amp)/norm if i == 0 else (1/norm if i == dim-1 else 0))
               for i in range(dim)]
    else:
        val = cx.ket('psi', dim)
        vec = [cx.dense(val)[i, 0] for i in range(dim)]
    sys.initialState = val
    spec.init = cx.cdense([[v] for v in vec])


def compare(cx, sys, spec, dt, label):
    cx.equal(sys.dimension, spec.dim, label + ': dimension')
    ham = spec.matrix(cx)
    cx.equal(sys.totalHamiltonian, ham, label + ': Hamiltonian')
    if spec.init is not None:
        cx.equal(sys.initialState, spec.init, label + ': initial state')
    if dt is not None:
        cx.equal(sys.unitary(), cx.expm(-1j*dt*ham), label + ': propagator')


CHANGES = ['frequency', 'order', 'operator', 'term', 'newTerm', 'dimension', 'initialState', 'nothing']


@harness('C25', reload=True, quick=[{'what': w} for w in CHANGES], thorough=[{'what': w, 'deep': True} for w in CHANGES],
         bounds='qubits, spins, cavities and general systems of dimension 2..3 with 1..3 terms and any kind of initial '
                'state, copied before or after being used, then one of the two changed')
def copies(cx, what, deep=False):
    ops = cx.ops
    kind = cx.choice('kind', ['qubit', 'spin', 'cavity', 'general'])
    extra = cx.pick(cx.int('extra', 0, 2))
    sys, spec = single(cx, 'a', kind, extra, cx.choice('order', [1, 2]) if deep or what == 'order' else 1)
    given = cx.choice('initial', ['none', 'index', 'list', 'dict', 'coef', 'ket'])
    if what not in ('initialState', 'nothing') and not deep and given not in ('none', 'index'):
        return
    if given == 'coef':
        sys._inpCoef = True
    if given != 'none':
        initial(cx, sys, spec, 'dict' if given == 'coef' else given)
    dt = cx.real('dt', positive=True) if what in ('frequency', 'nothing') else None
    if dt is not None:
        sys.simulation.stepSize = dt
    if cx.bool('used'):
        compare(cx, sys, spec, dt, 'original')
    twin = sys.copy()
    other = spec.clone()
    cx.check(twin is not sys and twin.name != sys.name, 'a copy is another object')
    cx.check(type(twin) is type(sys), 'a copy is of the same class')
    if dt is not None:
        twin.simulation.stepSize = dt
    if cx.bool('readCopy'):
        compare(cx, twin, other, dt, 'copy')
    mine, its = (sys, spec) if cx.bool('changeOriginal') else (twin, other)
    new = cx.real('new', nonzero=True)
    if what == 'frequency':
        mine.frequency = its.terms[0][0] = new
    elif what == 'order':
        mine.order = 3
        its.terms[0][1] = [(its, its.terms[0][1][0][1], 3)]
    elif what == 'operator':
        mine.operator = ops.Jy
        its.terms[0][1] = [(its, ops.Jy, its.terms[0][1][0][2])]
    elif what == 'term':
        if not extra:
            return
        list(mine.terms.values())[-1].frequency = its.terms[-1][0] = new
    elif what == 'newTerm':
        mine.createTerm(operator=ops.Jx, frequency=new)
        its.terms.append([new, [(its, ops.Jx, 1)], None])
    elif what == 'dimension':
        if kind in ('qubit', 'general'):
            return
        mine.dimension = its.ownDim = 4
        if its.init is not None:
            its.init = cx.cdense([[its.init[i, 0]] if i < 3 else [0] for i in range(4)])
    elif what == 'initialState':
        mine.initialState = 0
        its.init = cx.cdense([[1 if i == 0 else 0] for i in range(its.dim)])
    compare(cx, sys, spec, dt, 'original')
    compare(cx, twin, other, dt, 'copy')


def pair(cx, name, extra=0):
    """composite of a qubit and a cavity with a coupling or two"""
    ops = cx.ops
    one, sone = single(cx, name + 'q', 'qubit', extra)
    two, stwo = single(cx, name + 'c', 'cavity')
    comp = cx.qg.QuantumSystem(subSys=[one, two])
    spec = Spec('comp', kids=[sone, stwo])
    return comp, spec, [(one, sone), (two, stwo)]


def couple(cx, comp, spec, parts, opers, name, orders=None):
    freq = cx.real(name, nonzero=True)
    kwargs = {} if orders is None else {'order': list(orders)}
    hold = list
    if orders is not None and cx.bool(name + 'tuples'):
        hold, kwargs = tuple, {'order': tuple(orders)}
    handle = comp.createTerm(operator=hold(opers), frequency=freq, qSystem=hold(p[0] for p in parts), **kwargs)
    spec.terms.append([freq, [(p[1], o, 1 if orders is None else orders[k])
                              for k, (p, o) in enumerate(zip(parts, opers))], handle])
    return handle


DEEP = ['subFrequency', 'coupling', 'newCoupling', 'addSubSys', 'removeSubSys', 'subDimension', 'nothing']


@harness('C25', reload=True, quick=[{'what': w} for w in DEEP], thorough=[{'what': w, 'deep': True} for w in DEEP],
         bounds='composites of two systems, flat or nested, with 0..2 couplings; one change to original or copy')
def composites(cx, what, deep=False):
    ops, qg = cx.ops, cx.qg
    comp, spec, parts = pair(cx, 'a', 1 if deep else 0)
    num = cx.pick(cx.int('couplings', 0, 2))
    for k in range(num):
        couple(cx, comp, spec, parts[::-1] if k else parts, [[ops.Jp, ops.destroy], [ops.create, ops.Jm]][k], f'g{k}',
               None if not k else [2, 1])
    nested = cx.bool('nested')
    if nested:
        third, sthird = single(cx, 'n', 'qubit')
        first = cx.bool('first')
        comp2 = qg.QuantumSystem(subSys=[third, comp] if first else [comp, third])
        spec2 = Spec('comp', kids=[sthird, spec] if first else [spec, sthird])
        if cx.bool('cross'):
            # a coupling of systems at different depths of the tree
            couple(cx, comp2, spec2, [(third, sthird), parts[1]], [ops.Jp, ops.destroy], 'h')
        comp, spec = comp2, spec2
    if what == 'nothing' and cx.bool('initial'):
        ket = cx.ket('psi', spec.dim)
        comp.initialState = ket
        spec.init = cx.dense(ket).copy()
    if cx.bool('used'):
        compare(cx, comp, spec, None, 'original')
    twin, other = comp.copy(), spec.clone()
    if cx.bool('readCopy'):
        compare(cx, twin, other, None, 'copy')
    mine, its = (comp, spec) if cx.bool('changeOriginal') else (twin, other)
    new = cx.real('new', nonzero=True)
    leafs = list(its.leaves())

    def real(part):
        """the object of a part of the description"""
        path = []

        def find(node):
            if node is part:
                return True
            for ind, kid in enumerate(node.kids):
                if find(kid):
                    path.append(ind)
                    return True
            return False
        find(its)
        obj = mine
        for ind in reversed(path):
            obj = list(obj.subSys.values())[ind]
        return obj
    if what == 'subFrequency':
        part = cx.choice('part', leafs)
        real(part).frequency = part.terms[0][0] = new
    elif what == 'coupling':
        if not its.terms:
            return
        list(mine.terms.values())[-1].frequency = its.terms[-1][0] = new
    elif what == 'newCoupling':
        couple(cx, mine, its, [(real(leafs[0]), leafs[0]), (real(leafs[1]), leafs[1])], [ops.number, ops.number], 'k')
    elif what == 'addSubSys':
        sys, sub = single(cx, 'x', 'qubit')
        mine.addSubSys(sys)
        its.kids.append(sub)
    elif what == 'removeSubSys':
        if len(its.kids) < 2:
            return
        mine.removeSubSys(real(its.kids[-1]))
        gone = its.kids.pop()
        for node in list(its.nodes()):
            node.terms = [t for t in node.terms if not any(any(lf is p[0] for lf in gone.leaves()) for p in t[1])]
    elif what == 'subDimension':
        part = [lf for lf in leafs if lf.kind == 'cavity'][0]
        real(part).dimension = part.ownDim = 2
    compare(cx, comp, spec, None, 'original')
    compare(cx, twin, other, None, 'copy')


@harness('C25', reload=True, quick=[{}], bounds='a copy of a copy (and of a sum of copies) of a coupled pair with a '
         'time dependent frequency in a sub-system or the coupling, at any time')
def again(cx):
    comp, spec, parts = pair(cx, 'a', 1)
    handle = couple(cx, comp, spec, parts, [cx.ops.Jp, cx.ops.destroy], 'g')
    rate = cx.real('rate', nonzero=True)
    which = cx.choice('which', ['none', 'sub', 'coupling'])

    def ramp(term, time):
        term.frequency = rate*time
    if which == 'sub':
        list(parts[0][0].terms.values())[-1].timeDependency = ramp
    elif which == 'coupling':
        handle.timeDependency = ramp
    how = cx.choice('how', ['twice', 'sum'])
    if how == 'twice':
        res, other = comp.copy().copy(), spec.clone()
    else:
        res, other = comp + comp.copy(), Spec('comp', kids=[spec, spec.clone()])
        res, other = res.copy(), other.clone()
    compare(cx, res, other, None, 'copy')
    time = cx.real('time', positive=True)
    res._timeDependency(time)
    for node in other.nodes():
        if which == 'sub' and node.kind == 'qubit':
            node.terms[-1][0] = rate*time
        elif which == 'coupling' and node.terms and len(node.terms[0][1]) == 2:
            node.terms[0][0] = rate*time
    compare(cx, res, other, None, 'copy at a later time')


@harness('C25', reload=True, quick=[{'how': h} for h in ('sum', 'compSum', 'self', 'times', 'timesComp', 'minus', 'kwargs')],
         bounds='sums of 2..3 single or composite systems, multiples 1..3, differences')
def operators(cx, how):
    ops, qg = cx.ops, cx.qg
    if how == 'sum':
        kinds = ['qubit', 'cavity', 'general']
        one, s1 = single(cx, 'a', cx.choice('k1', kinds), cx.pick(cx.int('extra', 0, 1)))
        two, s2 = single(cx, 'b', cx.choice('k2', kinds))
        res, spec = one + two, Spec('comp', kids=[s1, s2])
        if cx.bool('third'):
            three, s3 = single(cx, 'c', 'qubit')
            res = res + three
            spec.kids.append(s3)
    elif how == 'compSum':
        comp, scomp, parts = pair(cx, 'a')
        couple(cx, comp, scomp, parts, [ops.Jp, ops.destroy], 'g')
        which = cx.choice('which', ['single', 'left', 'both'])
        if which == 'both':
            comp2, scomp2, _ = pair(cx, 'b')
            res, spec = comp + comp2, Spec('comp', kids=[scomp, scomp2])
        else:
            sys, sub = single(cx, 'x', 'qubit')
            res = comp + sys if which == 'single' else sys + comp
            spec = scomp
            spec.kids.append(sub)
    elif how == 'self':
        comp = cx.bool('comp')
        if comp:
            sys, sub, parts = pair(cx, 'a')
            couple(cx, sys, sub, parts, [ops.Jp, ops.destroy], 'g')
        else:
            sys, sub = single(cx, 'a', cx.choice('kind', ['qubit', 'cavity', 'general']), cx.pick(cx.int('extra', 0, 1)))
        res, spec = sys + sys, Spec('comp', kids=[sub, sub.clone()])
    elif how == 'times':
        sys, sub = single(cx, 'a', cx.choice('kind', ['qubit', 'cavity']), cx.pick(cx.int('extra', 0, 1)))
        num = cx.pick(cx.int('num', 1, 3))
        res, spec = num*sys, Spec('comp', kids=[sub] + [sub.clone() for _ in range(num-1)])
    elif how == 'timesComp':
        sys, sub, parts = pair(cx, 'a')
        couple(cx, sys, sub, parts, [ops.Jp, ops.destroy], 'g')
        res, spec = 2*sys, Spec('comp', kids=[sub, sub.clone()])
    elif how == 'minus':
        one, s1 = single(cx, 'a', 'qubit')
        two, s2 = single(cx, 'b', 'cavity')
        three, s3 = single(cx, 'c', 'qubit')
        res = one + two + three
        spec = Spec('comp', kids=[s1, s2, s3])
        objs = [(one, s1), (two, s2), (three, s3)]
        couple(cx, res, spec, objs[:2], [ops.Jp, ops.destroy], 'g')
        if cx.bool('used'):
            compare(cx, res, spec, None, 'sum')
        gone = cx.choice('gone', objs)
        res = res - gone[0]
        spec.kids = [k for k in spec.kids if k is not gone[1]]
        spec.terms = [t for t in spec.terms if not any(p[0] is gone[1] for p in t[1])]
        compare(cx, gone[0], gone[1], None, 'removed')
    else:
        sys, sub = single(cx, 'a', cx.choice('kind', ['qubit', 'cavity', 'general']), cx.pick(cx.int('extra', 0, 1)))
        new = cx.real('new', nonzero=True)
        res, spec = sys.copy(frequency=new, alias='twin'), sub.clone()
        spec.terms[0][0] = new
        cx.check(sys.getByNameOrAlias('twin') is res, 'keywords of copy are set on the copy')
        compare(cx, sys, sub, None, 'original')
    compare(cx, res, spec, None, 'result')
    if how in ('self', 'times', 'timesComp'):
        subs = list(res.subSys.values())
        cx.check(len({id(s) for s in subs}) == len(spec.kids), 'the parts are different objects')
        new = cx.real('new', nonzero=True)
        if spec.kids[0].kids:
            list(subs[-1].subSys.values())[0].frequency = spec.kids[-1].kids[0].terms[0][0] = new
        else:
            subs[-1].frequency = spec.kids[-1].terms[0][0] = new
        compare(cx, res, spec, None, 'after a change of one part')
