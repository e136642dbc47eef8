"""Hamiltonians of the legacy system classes."""
from symx.harness import harness

ASSUMPTIONS = ["operation histories up to the stated length; all frequencies and strengths are free non-zero reals"]


class Node:
    """what the user has declared: one single system"""

    def __init__(self, obj, dim, terms):
        self.obj, self.dim, self.terms = obj, dim, terms    # terms: [frequency, operator, order, object]


class Group:
    """a composite: its parts in order and the couplings made on it"""

    def __init__(self, obj):
        self.obj, self.parts, self.coup = obj, [], []       # coup: [strength, [[nodes, operators], ...], object]

    def leaves(self):
        out = []
        for part in self.parts:
            out += part.leaves() if isinstance(part, Group) else [part]
        return out

    def couplings(self):
        out = list(self.coup)
        for part in self.parts:
            if isinstance(part, Group):
                out += part.couplings()
        return out


def matrix(cx, oper, dim, order=1):
    ops = cx.ops
    if oper in (ops.Jx, ops.Jy, ops.Jz, ops.Jp, ops.Jm):
        mat = cx.dense(oper(dim, isDim=True))
    elif oper in (ops.sigmax, ops.sigmay, ops.sigmaz, ops.sigmap, ops.sigmam):
        mat = cx.dense(oper())
    else:
        mat = cx.dense(oper(dim))
    out = mat
    for _ in range(order-1):
        out = out @ mat
    return out


def place(cx, leaves, mats):
    res = cx.np.eye(1)
    for leaf in leaves:
        res = cx.np.kron(res, mats[leaf] if leaf in mats else cx.np.eye(leaf.dim))
    return res


def free(cx, leaves, some=None):
    tot = 0
    for leaf in leaves if some is None else some:
        for freq, oper, order, _ in leaf.terms:
            tot = tot + freq*place(cx, leaves, {leaf: matrix(cx, oper, leaf.dim, order)})
    return tot


def interaction(cx, leaves, coup):
    tot = 0
    for strength, pairs, _ in coup:
        for nodes, opers in pairs:
            prod = cx.np.eye(1)
            for leaf in leaves:
                mat = cx.np.eye(leaf.dim)
                for node, oper in zip(nodes, opers):
                    if node is leaf:
                        mat = mat @ matrix(cx, oper, leaf.dim)
                prod = cx.np.kron(prod, mat)
            tot = tot + strength*prod
    return tot


def compare(cx, root, label, parts=False):
    leaves = root.leaves()
    cx.equal(root.obj.totalHam, free(cx, leaves) + interaction(cx, leaves, root.couplings()), label)
    if parts:
        if root.coup:
            cx.equal(root.obj.couplingHam, interaction(cx, leaves, root.coup), label + ': coupling part')
        for leaf in leaves:
            cx.equal(leaf.obj.totalHam, free(cx, leaves, [leaf]), label + ': one of the systems')


def make(cx, ind, kind=None, dim=2):
    qg, ops = cx.qg, cx.ops
    freq = cx.real(f'f{ind}', nonzero=True)
    kind = kind or cx.choice(f'kind{ind}', ['CavityOld', 'QubitOld', 'qSystem'])
    if kind == 'CavityOld':
        return Node(qg.CavityOld(dimension=dim, frequency=freq), dim, [[freq, ops.number, 1, None]])
    if kind == 'QubitOld':
        return Node(qg.QubitOld(frequency=freq), 2, [[freq, ops.Jz, 1, None]])
    if kind == 'SpinOld':
        return Node(qg.SpinOld(jValue=(dim-1)/2, frequency=freq), dim, [[freq, ops.Jz, 1, None]])
    oper = ops.create if kind == 'create' else ops.sigmax if dim == 2 else ops.Jx
    return Node(qg.qSystem(dimension=dim, operator=oper, frequency=freq), dim, [[freq, oper, 1, None]])


SINGLE = ['frequency', 'dimension', 'operator', 'order', 'newTerm', 'termFrequency', 'termOrder', 'termOperator', 'removeTerm',
          'removeFirst', 'replaceTerms']


def change(cx, sys, what, step):
    """one change of a single system"""
    ops = cx.ops
    new = cx.real(f'v{step}', nonzero=True)
    obj, terms = sys.obj, sys.terms
    if what == 'frequency':
        obj.frequency = terms[0][0] = new
    elif what == 'dimension':
        sys.dim = 5 - sys.dim
        if cx.bool(f'spin{step}') and hasattr(obj, 'jValue'):
            obj.jValue = (sys.dim-1)/2
        else:
            obj.dimension = sys.dim
    elif what == 'operator':
        terms[0][1] = ops.Jx if terms[0][1] is not ops.Jx else ops.Jy
        obj.operator = terms[0][1]
    elif what == 'order':
        obj.order = terms[0][2] = 3 - terms[0][2]
    elif what == 'newTerm':
        oper = cx.choice(f'o{step}', [ops.create, ops.Jx])
        term = obj.addTerm(oper, new, 2)
        terms.append([new, oper, 2, term])
    elif what in ('termFrequency', 'termOrder', 'termOperator', 'removeTerm'):
        if terms[-1][3] is None:
            return False
        term = terms[-1][3]
        if what == 'termFrequency':
            term.frequency = terms[-1][0] = new
        elif what == 'termOrder':
            term.order = terms[-1][2] = 3 - terms[-1][2]
        elif what == 'termOperator':
            term.operator = terms[-1][1] = ops.Jy
        else:
            if len(terms) == 1:
                return False
            obj.removeTerm(cx.choice(f'by{step}', [term, str(term.name), [term]]))
            terms.pop()
    elif what == 'removeFirst':
        if len(terms) == 1:
            return False
        obj.removeTerm(obj.firstTerm)
        del terms[0]
    elif what == 'replaceTerms':
        term = cx.load('classes.QSys').term(operator=ops.Jx, frequency=new)
        obj.terms = term
        terms[:] = [[new, ops.Jx, 1, term]]
    return True


@harness('C29', reload=True, quick=[{'steps': 2, 'first': f} for f in SINGLE[:5] + SINGLE[10:]] + [
    {'steps': 3, 'first': 'newTerm', 'second': f} for f in SINGLE[5:]],
         thorough=[{'steps': 3, 'first': f} for f in SINGLE[:5] + SINGLE[10:]],
         bounds='one legacy system of dimension 2..3, one or two extra terms, histories of 2..3 changes, read or not between')
def single(cx, steps, first, second=None):
    dim = 2 if steps > 2 else cx.choice('dim', [2, 3])
    sys = make(cx, 0, cx.choice('kind', ['CavityOld', 'SpinOld', 'create', 'QubitOld'][:1 if steps > 2 else 6-dim]), dim)
    if second or cx.bool('readFirst'):
        cx.equal(sys.obj.totalHam, free(cx, [sys]), 'first reading')
    for step in range(steps):
        what = first if step == 0 else second if second and step == 1 else cx.choice(f'op{step}', SINGLE)
        if what == 'dimension' and isinstance(sys.obj, cx.qg.QubitOld):
            return
        if not change(cx, sys, what, step):
            return
        if step == steps-1 or cx.bool(f'read{step}'):
            cx.equal(sys.obj.totalHam, free(cx, [sys]), 'sum of the current terms')
            cx.check(len(sys.obj.subSys) == len(sys.terms), 'the terms are those added and not removed')


def couple(cx, group, nodes, step, how='one'):
    ops = cx.ops
    strength = cx.real(f'g{step}', nonzero=True)
    if how == 'two':
        pairs = [[nodes, [ops.Jp, ops.Jm]], [nodes, [ops.Jm, ops.Jp]]]
    elif how == 'same':
        pairs = [[[nodes[0], nodes[1], nodes[0]], [ops.create, ops.Jx, ops.Jy]]]
    elif how == 'itself':
        pairs = [[[nodes[1], nodes[1]], [ops.create, ops.Jx]]]
    else:
        pairs = [[nodes, [ops.Jx, ops.Jy, ops.create][:len(nodes)]]]
    given = [[n.obj for n in pairs[0][0]]]
    for _, opers in pairs:
        given.append(opers)
    obj = group.obj.createSysCoupling(*given, couplingStrength=strength)
    group.coup.append([strength, pairs, obj])


COUPLE = ['couple', 'couple two', 'couple all', 'couple same', 'couple itself']
CHANGES = COUPLE[:2] + ['strength', 'more', 'dimension', 'frequency', 'operator', 'newTerm', 'add', 'remove',
           'dropCoupling']


def build(cx, shape, early=False):
    """shape: '2', '3', '(2)1', '1(2)'"""
    qg = cx.qg
    root = Group(qg.compQSystem())
    kinds = ['CavityOld', 'SpinOld', 'qSystem']
    nodes = [make(cx, k, kinds[k]) for k in range(2 if shape == '2' else 3)]
    if shape in ('2', '3'):
        root.parts = nodes
        for node in nodes:
            root.obj.addSubSys(node.obj)
        return root
    inner = Group(qg.compQSystem())
    inner.parts = nodes[:2] if shape == '(2)1' else nodes[1:]
    root.parts = [inner, nodes[2]] if shape == '(2)1' else [nodes[0], inner]
    late = not early and cx.bool('late')
    for group in ([root, inner] if late else [inner, root]):
        for part in group.parts:
            group.obj.addSubSys(part.obj)
    return root


FIRST = [f for f in CHANGES if f not in ('strength', 'more', 'dropCoupling')]


@harness('C29', reload=True, quick=[{'shape': s, 'first': f, 'some': s != '2'} for s in ('2', '3', '(2)1', '1(2)') for f in FIRST
                                    if s in ('2', '(2)1') or f not in ('couple two', 'operator', 'newTerm')] + [
    {'shape': s, 'first': f, 'some': True} for s in ('3', '(2)1', '1(2)') for f in COUPLE[2:]
    if s == '3' or f == 'couple all'],
         thorough=[{'shape': s, 'first': f} for s in ('2', '3', '(2)1', '1(2)') for f in FIRST + COUPLE[3:]] + [
             {'shape': s, 'first': 'couple all'} for s in ('3', '(2)1', '1(2)')],
         bounds='two or three legacy systems, possibly nested, histories of 2 changes of parameters, terms, couplings and '
                'parts; quick: read before and between the changes if more than two systems')
def composite(cx, shape, first, some=False, steps=2):
    ops = cx.ops
    root = build(cx, shape, early=some and first not in ('add', 'dimension'))
    if some or cx.bool('readFirst'):
        compare(cx, root, 'first reading')
    for step in range(steps):
        what = first if step == 0 else cx.choice(f'op{step}', CHANGES)
        leaves = root.leaves()
        new = cx.real(f'w{step}', nonzero=True)
        if what in COUPLE:
            pair = list(leaves) if what == 'couple all' else [leaves[0], leaves[-1]]
            if what == 'couple all' and cx.bool(f'turn{step}'):
                pair = pair[1:] + pair[:1]
            if not some and cx.bool(f'swap{step}'):
                pair = pair[::-1]
            couple(cx, root, pair, step, what[7:] or 'one')
        elif what in ('strength', 'more', 'dropCoupling'):
            if not root.coup:
                return
            if what == 'strength':
                if not some and cx.bool(f'name{step}'):
                    root.coup[-1][2].couplingStrength = new
                else:
                    root.coup[-1][2].frequency = new
                root.coup[-1][0] = new
            elif what == 'more':
                pair = [leaves[0], leaves[1]]
                root.coup[-1][2].addTerm([n.obj for n in pair], [ops.Jz, ops.Jx])
                root.coup[-1][1].append([pair, [ops.Jz, ops.Jx]])
            else:
                root.obj.removeSubSys(root.coup.pop()[2])
        elif what in ('dimension', 'frequency', 'operator', 'newTerm'):
            node = leaves[cx.pick(cx.int(f'which{step}', 1 if some and step else 0, len(leaves)-1))]
            if what == 'dimension' and node.terms[0][1] is ops.sigmax:
                return
            change(cx, node, what, step)
        elif what == 'add':
            node = make(cx, 5+step, 'CavityOld', cx.choice(f'nd{step}', [3, 2][:1 if some else 2]))
            groups = [root] + [g for g in root.parts if isinstance(g, Group)]
            group = groups[-1] if len(groups) > 1 and cx.bool(f'inner{step}') else root
            group.obj.addSubSys(node.obj)
            group.parts.append(node)
        elif what == 'remove':
            groups = [root] + [g for g in root.parts if isinstance(g, Group)]
            victim = leaves[cx.pick(cx.int(f'gone{step}', 0, len(leaves)-1))]
            for group in groups:
                if victim in group.parts:
                    if len(group.parts) == 1:
                        return
                    if cx.bool(f'minus{step}'):
                        root.obj - victim.obj
                    else:
                        group.obj.removeSubSys(victim.obj)
                    group.parts.remove(victim)
            for group in groups:
                for coup in group.coup:
                    coup[1] = [pair for pair in coup[1] if victim not in pair[0]]
                group.coup = [coup for coup in group.coup if coup[1]]
        if some or step == steps-1 or cx.bool(f'read{step}'):
            compare(cx, root, 'sum of the current terms and couplings', parts=True)
            dim = 1
            for leaf in root.leaves():
                dim = dim*leaf.dim
            cx.check(root.obj.dimension == dim, 'the dimension is the product of the current dimensions')


@harness('C29', reload=True, quick=[{'how': h} for h in ('single+single', 'comp+single', 'single+comp', 'comp+comp', 'self+self',
                                                         'multiple', 'copy', 'copyComp')],
         bounds='sums, multiples and copies of legacy systems and of composites of two, changed afterwards')
def combined(cx, how):
    nodes = [make(cx, k, kind) for k, kind in enumerate(['CavityOld', 'SpinOld', 'qSystem', 'CavityOld'])]

    def group(parts):
        out = Group(cx.qg.compQSystem())
        out.parts = list(parts)
        for part in parts:
            out.obj.addSubSys(part.obj)
        return out

    def twin(node, obj):
        return Node(obj, node.dim, [[t[0], t[1], t[2], new] for t, new in zip(node.terms, obj.subSys.values())])
    if cx.bool('more'):
        change(cx, nodes[0], 'newTerm', 0)
    read = cx.bool('read')
    if read:
        for node in nodes:
            cx.equal(node.obj.totalHam, free(cx, [node]), 'alone')
    if how == 'single+single':
        root = Group(nodes[0].obj + nodes[1].obj)
        root.parts = nodes[:2]
    elif how in ('comp+single', 'single+comp'):
        root = group(nodes[:2])
        if read:
            compare(cx, root, 'before the addition')
        res = root.obj + nodes[2].obj if how == 'comp+single' else nodes[2].obj + root.obj
        cx.check(res is root.obj, 'the composite takes the system up')
        root.parts = nodes[:3]
    elif how == 'comp+comp':
        one, two = group(nodes[:2]), group(nodes[2:])
        if read:
            compare(cx, two, 'before the addition')
        root = Group(one.obj + two.obj)
        root.parts = [one, two]
    elif how == 'self+self':
        root = Group(nodes[0].obj + nodes[0].obj)
        subs = list(root.obj.subSys.values())
        cx.check(len(subs) == 2 and subs[1] is not nodes[0].obj, 'the second is a copy')
        root.parts = [nodes[0], twin(nodes[0], subs[1])]
    elif how == 'multiple':
        num = cx.pick(cx.int('num', 1, 3))
        root = Group(num*nodes[0].obj)
        subs = list(root.obj.subSys.values())
        cx.check(len(subs) == num, 'the number of systems')
        root.parts = [nodes[0]] + [twin(nodes[0], sub) for sub in subs[1:]]
    elif how == 'copy':
        root = Group(cx.qg.compQSystem())
        new = cx.real('new', nonzero=True)
        obj = nodes[0].obj.copy(frequency=new)
        other = twin(nodes[0], obj)
        other.terms[0][0] = new
        root.parts = [nodes[0], other]
        cx.equal(obj.totalHam, free(cx, [other]), 'the copy alone')
        for part in root.parts:
            root.obj.addSubSys(part.obj)
    else:
        first = group(nodes[:2])
        obj = first.obj.copy()
        root = Group(obj)
        root.parts = [twin(node, sub) for node, sub in zip(nodes, obj.subSys.values())]
    compare(cx, root, 'of the combination', parts=True)
    leaf = root.leaves()[-1]
    if cx.bool('late'):
        change(cx, leaf, 'newTerm', 1)
    else:
        change(cx, leaf, 'frequency', 1)
    compare(cx, root, 'after a change of the last system', parts=True)
    if how == 'copyComp':
        compare(cx, first, 'the original is unchanged', parts=True)


UCHANGES = ['frequency', 'operator', 'dimension', 'newTerm', 'strength', 'couple', 'step', 'add', 'remove', 'ratio']


@harness('C29', reload=True, quick=[{'shape': s, 'what': w} for s in ('1', '2', '(2)1') for w in UCHANGES
                                    if s == '2' or (w not in ('strength', 'couple') and (s != '1' or w not in ('add', 'remove')))],
         bounds='propagators of one to three legacy systems, possibly nested, read, changed once and read again')
def propagators(cx, shape, what):
    if shape == '1':
        root = make(cx, 0, 'CavityOld')
        leaves = [root]
    else:
        root = build(cx, shape, early=True)
        leaves = root.leaves()
    if what == 'strength':
        couple(cx, root, leaves[:2], 0)
    obj = root.obj
    step = cx.choice('dt', [cx.frac(1, 4), cx.frac(3, 1)])
    obj.simulation.stepSize = step
    ratio = 1

    def prop():
        now = [root] if shape == '1' else root.leaves()
        ham = free(cx, now) + (0 if shape == '1' else interaction(cx, now, root.couplings()))
        return cx.expm(-1j*step*ratio*ham)
    if cx.bool('read'):
        cx.equal(obj.unitary(), prop(), 'propagator')
        if cx.bool('again'):
            cx.equal(obj.unitary(), prop(), 'propagator, read again')
    new = cx.real('new', nonzero=True)
    leaf = leaves[cx.pick(cx.int('which', 0, len(leaves)-1))]
    if what in ('frequency', 'operator', 'dimension', 'newTerm'):
        if what == 'dimension' and leaf.terms[0][1] is cx.ops.sigmax:
            return
        change(cx, leaf, what, 0)
    elif what == 'strength':
        root.coup[0][2].couplingStrength = root.coup[0][0] = new
    elif what == 'couple':
        couple(cx, root, leaves[:2], 1)
    elif what == 'step':
        step = obj.simulation.stepSize = cx.frac(1, 8)
    elif what == 'ratio':
        ratio = obj._freeEvol.ratio = 2
    else:
        group = root.parts[0] if shape == '(2)1' and cx.bool('inner') else root
        if what == 'add':
            node = make(cx, 5, 'CavityOld')
            group.obj.addSubSys(node.obj)
            group.parts.append(node)
        else:
            node = group.leaves()[-1]
            group.obj.removeSubSys(node.obj)
            group.parts.remove(node)
    cx.equal(obj.unitary(), prop(), 'propagator after a change')
    cx.equal(obj.unitary(), prop(), 'propagator, not changed again')


@harness('C29', reload=True, quick=[{'what': w} for w in ('term', 'nested', 'coupling', 'several')],
         bounds='frequencies or strengths given as functions of time, for times 0 to 3 steps')
def driven(cx, what):
    root = build(cx, '(2)1' if what == 'nested' else '2', early=True)
    leaves = root.leaves()
    if what in ('coupling', 'several'):
        couple(cx, root, leaves[:2], 0)
    vals = [cx.real(f't{k}', nonzero=True) for k in range(3)]
    seen = []

    def func(obj, time):
        seen.append((obj, time))
        return vals[int(time)]*2 if obj is leaves[1].obj.firstTerm else vals[int(time)]
    objs = []
    if what != 'coupling':
        leaves[1].obj.firstTerm.timeDependency = func
        objs.append(leaves[1].obj.firstTerm)
    if what in ('coupling', 'several'):
        root.coup[0][2].timeDependency = func
        objs.append(root.coup[0][2])
    for step in range(2):
        time = cx.pick(cx.int(f'time{step}', 0, 2))
        root.obj._timeDependency(time)
        if what != 'coupling':
            leaves[1].terms[0][0] = 2*vals[time]
        if what in ('coupling', 'several'):
            root.coup[0][0] = vals[time]
        cx.check(len(seen) == len(objs)*(step+1) and all(any(o is obj for o, _ in seen) for obj in objs),
                 'each function is called once with its term')
        if step or cx.bool('read'):
            compare(cx, root, 'Hamiltonian at the given time', parts=True)
