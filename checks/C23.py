"""Phase-space functions."""
import math
from symx.harness import harness

ASSUMPTIONS = ['state entries, grid points and the scaling are free; photon numbers up to the stated dimension']


def grid(cx, n):
    return [cx.real(f'x{i}', lo=-3, hi=3) for i in range(n)]


def laguerre(n, k, x):
    """associated Laguerre polynomial L_n^k(x)"""
    tot = 0
    for i in range(n+1):
        tot = tot + (-1)**i*math.comb(n+k, n-i)*x**i*frac(1, math.factorial(i))
    return tot


def frac(a, b):
    from fractions import Fraction
    return float(a)/b if b in (1, 2, 4, 8) else Fraction(a, b)


def wigner(cx, rho, x, y, g):
    """closed form: sum over rho_mn of the Wigner functions of |m><n|"""
    alpha = 0.5*g*(x + 1j*y)
    mag = (alpha*alpha.conjugate()).real
    gauss = cx.exp(-2*mag)/cx.pi
    dim = len(rho)
    tot = 0
    for m in range(dim):
        for n in range(dim):
            lo, hi = min(m, n), max(m, n)
            lag = 0
            for i in range(lo+1):
                lag = lag + cx.frac((-1)**i*math.comb(hi, lo-i), math.factorial(i))*(4*mag)**i
            ratio = cx.sqrt(cx.frac(math.factorial(lo), math.factorial(hi)))
            amp = (2*alpha if n >= m else 2*alpha.conjugate())
            term = ratio*(-1)**lo*lag
            for _ in range(hi-lo):
                term = term*amp
            tot = tot + rho[m][n]*term
    return tot*gauss*g*g


@harness('C23', quick=[{'dim': d} for d in (1, 2, 3)], thorough=[{'dim': d} for d in (1, 2, 3, 4, 5)],
         bounds='dimension 1..3 (thorough ..5), grids of 1..2 points with any coordinates, any scaling, kets and density '
                'matrices, sparse and dense')
def wignerFunction(cx, dim):
    qp = cx.load('QuantumToolbox.quasiProbabilities')
    sparse = cx.bool('sparse')
    ket = dim > 1 and cx.bool('ket')
    pts = grid(cx, cx.pick(cx.int('points', 1, 2)) if dim < 4 else 1)
    default = cx.bool('defaultScale')
    g = cx.sqrt(cx.frac(2, 1)) if default else cx.real('g', lo=0.5, hi=2)
    if ket:
        state = cx.ket('p', dim, sparse)
        dns = cx.dense(state).copy()
        rho = [[dns[i, 0]*dns[j, 0].conjugate() for j in range(dim)] for i in range(dim)]
    else:
        state = cx.matrix('r', dim, kind='hermitian', sparse=sparse)
        dns = cx.dense(state).copy()
        rho = [[dns[i, j] for j in range(dim)] for i in range(dim)]
    vec = cx.np.array(pts) if cx.bool('arrayGrid') else list(pts)
    got = qp.Wigner(state, vec) if default else qp.Wigner(state, vec, g)
    want = [[wigner(cx, rho, x, y, g) for x in pts] for y in pts]
    cx.check(tuple(got.shape) == (len(pts), len(pts)), 'one value per grid point')
    for i in range(len(pts)):
        for j in range(len(pts)):
            cx.equal(got[i, j], want[i][j], 'Wigner function')
    cx.equal(state, dns, 'the state is not changed')


@harness('C23', quick=[{'dim': d} for d in (2, 3)], thorough=[{'dim': d} for d in (2, 3, 4, 5)],
         bounds='dimension 2..3 (thorough ..5), grids of 1..2 points, any scaling, kets and diagonal density matrices')
def husimi(cx, dim):
    qp = cx.load('QuantumToolbox.quasiProbabilities')
    sparse = cx.bool('sparse')
    ket = cx.bool('ket')
    pts = grid(cx, cx.pick(cx.int('points', 1, 2)))
    default = cx.bool('defaultScale')
    g = cx.sqrt(cx.frac(2, 1)) if default else cx.real('g', lo=0.5, hi=2)
    if ket:
        state = cx.ket('p', dim, sparse)
        dns = cx.dense(state).copy()
    else:
        state = cx.matrix('r', dim, kind='diag', sparse=sparse)
        dns = cx.dense(state).copy()
    got = qp.HusimiQ(state, pts) if default else qp.HusimiQ(state, pts, g)
    cx.check(tuple(got.shape) == (len(pts), len(pts)), 'one value per grid point')
    for i, y in enumerate(pts):
        for j, x in enumerate(pts):
            alpha = 0.5*g*(x + 1j*y)
            mag = (alpha*alpha.conjugate()).real
            if ket:
                amp, power = 0, 1
                for n in range(dim):
                    amp = amp + dns[n, 0]*power*cx.sqrt(cx.frac(1, math.factorial(n)))
                    power = power*alpha.conjugate()
                tot = (amp*amp.conjugate()).real
            else:
                tot, power = 0, 1
                for n in range(dim):
                    tot = tot + dns[n, n]*power*cx.frac(1, math.factorial(n))
                    power = power*mag
            cx.equal(got[i, j], tot*cx.exp(-1*mag)/cx.pi*g*g*0.25, 'Husimi function')
    cx.equal(state, dns, 'the state is not changed')
