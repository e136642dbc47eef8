"""Composite systems: every operator sits at its own tensor position, whatever the tree and its history."""
from symx.harness import harness

ASSUMPTIONS = ['trees of up to three levels; leaf dimensions 1 to 3; frequencies free non-zero reals (zero: C12)']


class Leaf:
    def __init__(self, sys, dim, freq):
        self.sys, self.dim, self.freq = sys, dim, freq

    def leaves(self):
        return [self]


class Node:
    def __init__(self, sys, kids):
        self.sys, self.kids, self.coup = sys, kids, []

    def leaves(self):
        return [lf for kid in self.kids for lf in kid.leaves()]

    @property
    def dim(self):
        out = 1
        for lf in self.leaves():
            out *= lf.dim
        return out


def leaf(cx, name, dims=(3,)):
    dim = cx.choice(name, list(dims))
    freq = cx.real('f' + name, nonzero=True)
    return Leaf(cx.qg.Cavity(dimension=dim, frequency=freq), dim, freq)


def node(cx, kids):
    sys = cx.qg.QuantumSystem()
    for kid in kids:
        sys.addSubSys(kid.sys)
    return Node(sys, kids)


def place(cx, leaves, mats):
    res = cx.eye(1)
    for lf in leaves:
        res = cx.sp.kron(res, mats.get(lf, None) if lf in mats else cx.eye(lf.dim), format='csc')
    return res


def oracle(cx, root, part):
    """the Hamiltonian of a part, on the space of the root"""
    tot = 0
    for lf in part.leaves():
        tot = tot + lf.freq*place(cx, root.leaves(), {lf: cx.ops.number(lf.dim)})
    for sub in nodes(part):
        for freq, one, two in getattr(sub, 'coup', []):
            tot = tot + freq*place(cx, root.leaves(), {one: cx.ops.create(one.dim), two: cx.ops.destroy(two.dim)})
    return tot


def couple(cx, name, sub):
    """a coupling of the first and the last leaf of a composite"""
    leaves = sub.leaves()
    freq = cx.real(name, nonzero=True)
    sub.sys.createTerm(operator=[cx.ops.create, cx.ops.destroy], frequency=freq,
                       qSystem=[leaves[0].sys, leaves[-1].sys])
    sub.coup.append((freq, leaves[0], leaves[-1]))


def dropped(root, gone):
    for sub in nodes(root):
        if isinstance(sub, Node):
            sub.coup = [c for c in sub.coup if c[1] not in gone and c[2] not in gone]


def nodes(part):
    out = [part]
    for kid in getattr(part, 'kids', []):
        out += nodes(kid)
    return out


def dims(part):
    return [dims(kid) for kid in part.kids] if isinstance(part, Node) else part.dim


def verify(cx, root, label):
    for part in nodes(root):
        cx.check(part.sys.dimension == part.dim, label + ': dimension is the product of the leaf dimensions')
        cx.equal(part.sys.totalHamiltonian, oracle(cx, root, part), label + ': operators sit at their tensor position')
    cx.check(root.sys.subSysDimensions == dims(root), label + ': list of dimensions follows the tree')
    total = root.dim
    for lf in root.leaves():
        cx.check(lf.sys._totalDim == total, label + ': total dimension seen from a leaf')


def tree(cx, shape):
    if shape == 'flat':
        return node(cx, [leaf(cx, 'a'), leaf(cx, 'b', [2]), leaf(cx, 'c', [2])])
    if shape == 'left':
        return node(cx, [node(cx, [leaf(cx, 'a'), leaf(cx, 'b', [2])]), leaf(cx, 'c', [2])])
    if shape == 'right':
        return node(cx, [leaf(cx, 'a', [2]), node(cx, [leaf(cx, 'b'), leaf(cx, 'c', [2])])])
    if shape == 'both':
        return node(cx, [node(cx, [leaf(cx, 'a', [2]), leaf(cx, 'b')]), node(cx, [leaf(cx, 'c', [2]), leaf(cx, 'd', [2])])])
    if shape == 'deep':
        return node(cx, [leaf(cx, 'a', [2]), node(cx, [node(cx, [leaf(cx, 'b'), leaf(cx, 'c', [2])]), leaf(cx, 'd', [2])])])
    if shape == 'late':
        # sub-systems go into the inner composites after these are part of the tree
        inner = Node(cx.qg.QuantumSystem(), [])
        root = node(cx, [leaf(cx, 'a', [2]), leaf(cx, 'b', [2])])
        lf = leaf(cx, 'c')
        inner.sys.addSubSys(lf.sys)
        inner.kids.append(lf)
        root.sys.addSubSys(inner.sys)
        root.kids.append(inner)
        return root
    raise ValueError(shape)


SHAPES = ['flat', 'left', 'right', 'both', 'deep', 'late']


def act(cx, root, step):
    what = cx.choice(f'act{step}', ['dimension', 'removeLeaf', 'addLeaf', 'swapOut'])
    leaves = root.leaves()
    if what == 'dimension':
        lf = cx.choice(f'which{step}', leaves)
        lf.sys.dimension = lf.dim = cx.choice(f'dim{step}', [d for d in (2, 3, 4) if d != lf.dim][:1])
        return True
    if what == 'removeLeaf':
        lf = cx.choice(f'which{step}', leaves)
        parent = next(p for p in nodes(root) if lf in getattr(p, 'kids', []))
        if len(parent.kids) < 2:
            return False
        (root if cx.bool(f'viaRoot{step}') else parent).sys.removeSubSys(lf.sys)
        parent.kids.remove(lf)
        dropped(root, [lf])
        return True
    if what == 'addLeaf':
        target = cx.choice(f'which{step}', [p for p in nodes(root) if isinstance(p, Node)])
        new = leaf(cx, f'new{step}', [3])
        target.sys.addSubSys(new.sys)
        target.kids.append(new)
        return True
    if what == 'swapOut':
        # a composite child leaves the tree and is whole on its own
        kids = [k for k in root.kids if isinstance(k, Node)]
        if not kids or len(root.kids) < 2:
            return False
        kid = kids[0]
        root.sys.removeSubSys(kid.sys)
        root.kids.remove(kid)
        dropped(root, kid.leaves())
        verify(cx, kid, 'removed composite')
        return True
    raise ValueError(what)


@harness('C11', reload=True, quick=[{'shape': s, 'steps': 1 if s in ('both', 'deep') else 2} for s in SHAPES],
         thorough=[{'shape': s, 'steps': 2 if s in ('both', 'deep') else 3} for s in SHAPES],
         bounds='six tree shapes with up to four leaves, up to two changes (thorough three): leaf dimension, leaf added, leaf or '
                'composite removed')
def trees(cx, shape, steps):
    root = tree(cx, shape)
    for num, part in enumerate(nodes(root)):
        if isinstance(part, Node) and len(part.leaves()) > 1:
            couple(cx, f'g{num}', part)
    if cx.bool('readFirst'):
        verify(cx, root, 'built')
    for step in range(steps):
        if not act(cx, root, step):
            return
        if step == steps-1 or cx.bool(f'read{step}'):
            verify(cx, root, f'change {step}')
