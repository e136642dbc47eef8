"""Partial trace."""
import itertools
from symx.harness import harness

ASSUMPTIONS = ['state entries are free complex numbers; the number of sub-systems, their dimensions and the kept set '
               'are chosen by the solver within the stated bounds']


def reduced(keep, dims, rho, cx):
    """the definition: sum over equal indices of the discarded sub-systems"""
    kept = sorted(keep)
    drop = [i for i in range(len(dims)) if i not in kept]
    kd = [dims[i] for i in kept]
    size = 1
    for d in kd:
        size *= d
    out = [[0]*size for _ in range(size)]

    def flat(idx):
        num = 0
        for i, d in zip(idx, dims):
            num = num*d + i
        return num
    for r, row in enumerate(itertools.product(*[range(d) for d in kd])):
        for c, col in enumerate(itertools.product(*[range(d) for d in kd])):
            tot = 0
            for rest in itertools.product(*[range(dims[i]) for i in drop]):
                ri, ci = [0]*len(dims), [0]*len(dims)
                for k, i in enumerate(kept):
                    ri[i], ci[i] = row[k], col[k]
                for k, i in enumerate(drop):
                    ri[i] = ci[i] = rest[k]
                tot = tot + rho[flat(ri), flat(ci)]
            out[r][c] = tot
    return cx.cdense(out)


def subsets(num):
    return [list(c) for k in range(1, num+1) for c in itertools.combinations(range(num), k)]


@harness('C03', quick=[{'n': 1, 'hi': 4}, {'n': 2, 'hi': 3}, {'n': 3, 'hi': 2}],
         thorough=[{'n': 1, 'hi': 6}, {'n': 2, 'hi': 4}, {'n': 3, 'hi': 3}, {'n': 4, 'hi': 2}],
         bounds='1..3 sub-systems (thorough ..4) with dimensions up to 4/3/2 (thorough 6/4/3/2), every non-empty kept set, '
                'matrices and kets, sparse and dense, lists and arrays, any kept order')
def partial(cx, n, hi):
    dims = [cx.pick(cx.int(f'd{k}', 1, hi)) for k in range(n)]
    keep = cx.choice('keep', subsets(n))
    form = cx.choice('form', ['dense', 'sparse'])
    ket = cx.bool('ket')
    total = 1
    for d in dims:
        total *= d
    if n == 3 and total > 12:
        ket = True
    if ket:
        cx.assume(total > 1)
        state = cx.ket('psi', total, form == 'sparse')
        dns = cx.dense(state)
        rho = dns @ cx.dag(dns)
    else:
        state = cx.matrix('rho', total, sparse=form == 'sparse')
        rho = cx.dense(state)
    before = cx.dense(state).copy()
    dimsIn, keepIn = list(dims), list(keep)
    got = cx.la.partialTrace(keepIn, dimsIn, state)
    want = reduced(keep, dims, rho, cx)
    cx.equal(got, want, 'partial trace')
    cx.equal(cx.la.trace(got), cx.la.trace(rho), 'the trace is preserved')
    cx.equal(state, before, 'the state is not changed')
    cx.check(dimsIn == dims and keepIn == keep, 'the index lists are not changed')
    again = cx.la.partialTrace(cx.np.array(keep[::-1]), cx.np.array(dims), state)
    cx.equal(again, want, 'the order of the kept indices and the container do not matter')


@harness('C03', quick=[{'hi': 2}], thorough=[{'hi': 3}],
         bounds='products of two states of dimension 1..2 (thorough ..3)')
def productStates(cx, hi):
    da, db = cx.pick(cx.int('da', 1, hi)), cx.pick(cx.int('db', 1, hi))
    a, b = cx.matrix('a', da, sparse=True), cx.matrix('b', db, sparse=True)
    rho = cx.la.tensorProd(a, b)
    cx.equal(cx.la.partialTrace([0], [da, db], rho), cx.dense(a)*cx.la.trace(b), 'product state, first factor kept')
    cx.equal(cx.la.partialTrace([1], [da, db], rho), cx.dense(b)*cx.la.trace(a), 'product state, second factor kept')
