"""Jaynes-Cummings, Rabi and Dicke couplings of composite systems."""
from symx.harness import harness

ASSUMPTIONS = ['couplings of one cavity and one qubit or spin; strengths and frequencies are free non-zero reals']


def embed(cx, dims, pos, mat):
    res = cx.eye(1)
    for ind, dim in enumerate(dims):
        res = cx.sp.kron(res, mat if ind == pos else cx.eye(dim))
    return res


def coupling(cx, model, dims, cav, spin):
    """the textbook coupling operator with unit strength"""
    ops = cx.ops
    low = embed(cx, dims, cav, ops.destroy(dims[cav]))
    rise = embed(cx, dims, cav, ops.create(dims[cav]))
    if model == 'JC':
        return low @ embed(cx, dims, spin, ops.Jp(dims[spin], isDim=True)) \
            + rise @ embed(cx, dims, spin, ops.Jm(dims[spin], isDim=True))
    other = ops.sigmax() if model == 'Rabi' else ops.Jx(dims[spin], isDim=True)
    return (low + rise) @ embed(cx, dims, spin, other)


def build(cx, model, legacy, cases):
    qg, ops = cx.qg, cx.ops
    extra = cx.choice('extra', cases)
    dim = cx.pick(cx.int('dim', 2, 3)) if extra is None else 2
    kinds = ['qubit'] if model == 'Rabi' else ['qubit', 'spin']
    kind = cx.choice('kind', kinds)
    freqs = [cx.real(f'f{k}', nonzero=True) for k in range(3)]
    if legacy:
        cav = qg.CavityOld(dimension=dim, frequency=freqs[0])
        spin = qg.QubitOld(frequency=freqs[1]) if kind == 'qubit' else qg.SpinOld(jValue=1, frequency=freqs[1])
        comp = qg.compQSystem()
    else:
        cav = qg.Cavity(dimension=dim, frequency=freqs[0])
        spin = qg.Qubit(frequency=freqs[1]) if kind == 'qubit' else qg.Spin(jValue=1, frequency=freqs[1])
        comp = qg.QuantumSystem()
    parts = [(cav, dim, freqs[0], ops.number(dim)),
             (spin, 2 if kind == 'qubit' else 3, freqs[1], ops.Jz(2 if kind == 'qubit' else 3, isDim=True))]
    if cx.bool('swapped'):
        parts = parts[::-1]
    if extra is not None:
        other = qg.qSystem(dimension=2, frequency=freqs[2], operator=ops.sigmax) if legacy else \
            qg.QuantumSystem(dimension=2, frequency=freqs[2], operator=ops.sigmax)
        parts.insert(extra, (other, 2, freqs[2], ops.sigmax()))
    for part in parts:
        comp.addSubSys(part[0])
    return comp, cav, spin, parts


def hamiltonian(cx, parts):
    dims = [p[1] for p in parts]
    return sum((p[2]*embed(cx, dims, k, p[3]) for k, p in enumerate(parts)), 0)


def arguments(cx, cav, spin, any):
    how = cx.choice('given', ['none', 'cavity first', 'spin first'] if any else ['none'])
    return how, {'none': [], 'cavity first': [cav, spin], 'spin first': [spin, cav]}[how]


MODELS = ['JC', 'Rabi', 'Dicke']


CHANGES = ['strength', 'zero', 'dimension', 'frequency', 'again']


@harness('C26', reload=True, quick=[{'model': m, 'change': c} for m in MODELS for c in CHANGES],
         bounds='a cavity of dimension 2..3 and a qubit or spin 1 in any order, alone or with another system before, '
                'between or after; one or two later changes')
def current(cx, model, change):
    comp, cav, spin, parts = build(cx, model, False, [None, 0, 1, 2])
    if cx.bool('readBefore'):
        cx.equal(comp.totalHamiltonian, hamiltonian(cx, parts), 'Hamiltonian before the coupling')
    strength = cx.real('g', nonzero=True)
    how, args = arguments(cx, cav, spin, change == 'strength')
    obj = getattr(comp, model)(strength, *args)

    def compare(label):
        dims = [p[1] for p in parts]
        inter = strength*coupling(cx, model, dims, [p[0] for p in parts].index(cav), [p[0] for p in parts].index(spin))
        cx.equal(comp.totalHamiltonian, hamiltonian(cx, parts) + inter, label)
        if own:
            cx.equal(obj.totalHamiltonian, inter, label + ', of the coupling itself')
        cx.equal(obj.frequency, strength, label + ', strength')
    own = cx.bool('readOwn')
    if cx.bool('readAfter'):
        compare('after the coupling is made')
    if change == 'strength':
        strength = obj.frequency = cx.real('g2', nonzero=True)
    elif change == 'zero':
        strength = obj.frequency = 0
    elif change == 'dimension':
        cav.dimension = 4
        parts = [(p[0], 4, p[2], cx.ops.number(4)) if p[0] is cav else p for p in parts]
    elif change == 'frequency':
        spin.frequency = cx.real('f4', nonzero=True)
        parts = [(p[0], p[1], spin.frequency, p[3]) if p[0] is spin else p for p in parts]
    else:
        # the same coupling twice adds up
        more = cx.real('more', nonzero=True)
        getattr(comp, model)(more, cav, spin)
        dims = [p[1] for p in parts]
        inter = (strength + more)*coupling(cx, model, dims, [p[0] for p in parts].index(cav),
                                           [p[0] for p in parts].index(spin))
        cx.equal(comp.totalHamiltonian, hamiltonian(cx, parts) + inter, 'two couplings')
        return
    compare('after a change')


@harness('C26', reload=True, quick=[{'model': m} for m in MODELS],
         bounds='the same with the legacy classes')
def legacy(cx, model):
    comp, cav, spin, parts = build(cx, model, True, [None, 0, 2])
    strength = cx.real('g', nonzero=True)
    how, args = arguments(cx, cav, spin, True)
    obj = getattr(comp, model)(strength, *args)

    def compare(label):
        dims = [p[1] for p in parts]
        inter = strength*coupling(cx, model, dims, [p[0] for p in parts].index(cav), [p[0] for p in parts].index(spin))
        cx.equal(comp.totalHam, hamiltonian(cx, parts) + inter, label)
        cx.equal(obj.totalHam, inter, label + ', of the coupling itself')
    if cx.bool('readAfter'):
        compare('after the coupling is made')
    change = cx.choice('change', ['strength', 'dimension', 'frequency'] if how == 'none' else ['strength'])
    if change == 'strength':
        strength = obj.couplingStrength = cx.real('g2', nonzero=True)
    elif change == 'dimension':
        cav.dimension = 4
        parts = [(p[0], 4, p[2], cx.ops.number(4)) if p[0] is cav else p for p in parts]
    else:
        spin.frequency = cx.real('f4', nonzero=True)
        parts = [(p[0], p[1], spin.frequency, p[3]) if p[0] is spin else p for p in parts]
    compare('after a change')


@harness('C26', reload=True, quick=[{}], bounds='pairs of systems without a cavity, nested pairs, removed parts')
def refusals(cx):
    qg = cx.qg
    model = cx.choice('model', MODELS)
    what = cx.choice('what', ['two qubits', 'nested', 'removed'])
    strength = cx.real('g', nonzero=True)
    freqs = [cx.real(f'f{k}', nonzero=True) for k in range(3)]
    if what == 'two qubits':
        one, two = qg.Qubit(frequency=freqs[0]), qg.Qubit(frequency=freqs[1])
        comp = qg.QuantumSystem(subSys=[one, two])
        cx.raises(ValueError, lambda: getattr(comp, model)(strength, one, two), 'a cavity is required')
        return
    ops = cx.ops
    cav, spin, other = qg.Cavity(dimension=2, frequency=freqs[0]), qg.Qubit(frequency=freqs[1]), qg.Qubit(frequency=freqs[2])
    inner = qg.QuantumSystem(subSys=[spin, cav])
    first = cx.bool('first')
    outer = qg.QuantumSystem(subSys=[other, inner] if first else [inner, other])
    getattr(outer, model)(strength, cav, spin)
    jz, num = ops.Jz(2, isDim=True), ops.number(2)
    free = [(other, freqs[2], jz), (spin, freqs[1], jz), (cav, freqs[0], num)]
    if not first:
        free = free[1:] + free[:1]
    dims = [2, 2, 2]
    ham = sum((f*embed(cx, dims, k, mat) for k, (_, f, mat) in enumerate(free)), 0)
    objs = [f[0] for f in free]
    inter = strength*coupling(cx, model, dims, objs.index(cav), objs.index(spin))
    cx.equal(outer.totalHamiltonian, ham + inter, 'nested systems')
    if what == 'removed':
        gone = cx.choice('gone', [cav, spin, other])
        (outer if gone is other else inner).removeSubSys(gone)
        keep = [f for f in free if f[0] is not gone]
        ham = sum((f*embed(cx, [2, 2], k, mat) for k, (_, f, mat) in enumerate(keep)), 0)
        if gone is other:
            objs = [f[0] for f in keep]
            ham = ham + strength*coupling(cx, model, [2, 2], objs.index(cav), objs.index(spin))
        cx.equal(outer.totalHamiltonian, ham, 'couplings of removed systems disappear')


@harness('C26', reload=True, quick=[{'model': m} for m in MODELS],
         bounds='two cavities and two qubits, or spins of 1/2, in any order with nothing said about which ones to couple')
def several(cx, model):
    qg, ops = cx.qg, cx.ops
    freqs = [cx.real(f'f{k}', nonzero=True) for k in range(4)]
    kind = cx.choice('kind', ['qubit', 'spin'])

    def spin(freq):
        return qg.Qubit(frequency=freq) if kind == 'qubit' or model == 'Rabi' else qg.Spin(jValue=1/2, frequency=freq)
    jz, num = ops.Jz(2, isDim=True), ops.number(2)
    parts = [(qg.Cavity(dimension=2, frequency=freqs[0]), freqs[0], num), (spin(freqs[1]), freqs[1], jz)]
    other = cx.choice('other', ['cavity', 'spin', 'both'])
    if other != 'spin':
        parts.append((qg.Cavity(dimension=2, frequency=freqs[2]), freqs[2], num))
    if other != 'cavity':
        parts.append((spin(freqs[3]), freqs[3], jz))
    left, parts = parts, []
    while left:
        parts.append(left.pop(cx.choice(f'place{len(parts)}', list(range(len(left)))) if len(left) > 1 else 0))
    comp = qg.QuantumSystem(subSys=[p[0] for p in parts])
    strength = cx.real('g', nonzero=True)
    getattr(comp, model)(strength)
    isCav = [p[2] is num for p in parts]
    dims = [2]*len(parts)
    ham = sum((p[1]*embed(cx, dims, k, p[2]) for k, p in enumerate(parts)), 0)
    inter = strength*coupling(cx, model, dims, isCav.index(True), isCav.index(False))
    cx.equal(comp.totalHamiltonian, ham + inter, 'the first cavity and the first qubit or spin are coupled')
