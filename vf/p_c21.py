"""C21: 2D Lagrange interpolation."""
import numpy as np
from . import lagr
from .common import *
RULE = ('random control grids (1..12 nodes per direction, at least two in all, integer/clustered/offset/unsorted), values and queries (inside, outside, at nodes) in lists, tuples, '
        'strided, read-only, integer and float arrays; every call is compared with extended-precision weights; distinct by nodes, values and queries')
KINDS = [('any', 5), ('nodes', 2), ('polynomial', 2), ('relations', 3), ('independent', 2), ('scalars', 1), ('misfit', .5)]
NEED_EVENTS = ['interp2']
MIN_CASES = 80
EPS = lagr.TOL

def setup(c, hi=12, mi=1):
    rng = c.rng
    lagr.watch(c, 'interp2')
    while True:
        M, N = rng.integers(mi, hi+1, 2) if rng.random() < .3 else rng.integers(mi, 6, 2)
        if M*N > 1:
            break
    hx, xn = lagr.nodes(rng, M)
    hy, yn = lagr.nodes(rng, N)
    fh = str(rng.choice(['normal', 'int', 'unit', 'big', 'zero-row']))
    f = rng.normal(size=(M, N))
    if fh == 'int':
        f = rng.integers(-9, 10, (M, N))
    elif fh == 'unit':
        f = np.zeros((M, N)); f[rng.integers(M), rng.integers(N)] = 1
    elif fh == 'big':
        f = f*10.**rng.uniform(-12, 12, (M, N))
    elif fh == 'zero-row':
        f[rng.integers(M)] = 0
    K = int(rng.choice([1, 2, 3, M, N, 17])) if rng.random() > .03 else int(10**rng.uniform(2, 4))
    qx, x = lagr.queries(rng, xn, K)
    qy, y = lagr.queries(rng, yn, K)
    c.note(M=int(M), N=int(N), nodes=(hx, hy), queries=(qx, qy), values=fh, first=(float(x[0]), float(y[0])))
    c.sig(xn, yn, np.asarray(f, float), np.asarray(x, float), np.asarray(y, float))
    c.stats['grid %dx%d' % (M, N)] += 1
    return x, y, xn, yn, f

def mag(x, y, xn, yn, f):
    from . import ref
    return lagr.value([ref.lagrange_weights(x, xn), ref.lagrange_weights(y, yn)], f)[1]

def case_any(c):
    rng = c.rng
    x, y, xn, yn, f = setup(c)
    g = lagr.dress
    api().interp2(g(rng, x, ('array', 'readonly', 'strided', 'float', 'list')), g(rng, y, ('array', 'readonly', 'strided', 'float', 'list')), g(rng, xn), g(rng, yn), g(rng, f))

def case_nodes(c):
    x, y, xn, yn, f = setup(c)
    X, Y = np.meshgrid(xn, yn, indexing='ij')
    r = api().interp2(X.ravel(), Y.ravel(), xn, yn, f)
    c.ok(np.all(np.abs(r - np.asarray(f).ravel()) <= 1e-12*np.abs(f).ravel()), 'control values at control nodes')

def case_polynomial(c):
    """Every polynomial of degree M-1, N-1 everywhere, coefficients in node-centred coordinates."""
    rng = c.rng
    x, y, xn, yn, f = setup(c)
    cx, cy = np.mean(xn), np.mean(yn)
    wx, wy = np.ptp(xn) or 1, np.ptp(yn) or 1
    C = rng.normal(size=(len(xn), len(yn)))
    P = lambda a, b: np.polynomial.polynomial.polyval2d((np.asarray(a, float)-cx)/wx, (np.asarray(b, float)-cy)/wy, C)
    X, Y = np.meshgrid(xn, yn, indexing='ij')
    F = P(X, Y)
    x, y = np.asarray(x, float), np.asarray(y, float)
    r = api().interp2(x, y, xn, yn, F)
    c.ok(np.all(np.abs(r - P(x, y)) <= 1e-11*mag(x, y, xn, yn, np.abs(F) + np.abs(C).sum())), 'reproduces polynomials')
    one = api().interp2(x, y, xn, yn, np.ones_like(F))
    c.ok(np.all(np.abs(one - 1) <= 1e-11*mag(x, y, xn, yn, np.ones_like(F))), 'weights sum to one')

def case_relations(c):
    rng, a = c.rng, api()
    x, y, xn, yn, f = setup(c)
    f = np.asarray(f, float)
    r = a.interp2(x, y, xn, yn, f)
    m = mag(x, y, xn, yn, f)
    p, q = rng.permutation(len(xn)), rng.permutation(len(yn))
    r2 = a.interp2(x, y, xn[p], yn[q], f[np.ix_(p, q)])
    c.ok(np.all(np.abs(r2 - r) <= EPS*m), 'order of control nodes does not matter')
    g = rng.normal(size=f.shape)*np.abs(f).max()
    s = float(rng.normal())
    m2 = m + abs(s)*mag(x, y, xn, yn, g)
    c.ok(np.all(np.abs(a.interp2(x, y, xn, yn, f + s*g) - r - s*a.interp2(x, y, xn, yn, g)) <= EPS*m2), 'linear in the values')
    t = a.interp2(y, x, yn, xn, f.T)
    c.ok(np.all(np.abs(t - r) <= EPS*m), 'swapping the directions')
    r3 = a.interp2(list(map(float, x)), list(map(float, y)), xn.tolist(), yn.tolist(), f.tolist())
    c.ok(np.all(np.abs(np.asarray(r3) - r) <= EPS*m), 'lists or arrays')

def case_independent(c):
    rng, a = c.rng, api()
    x, y, xn, yn, f = setup(c)
    x, y = np.array(x, float), np.array(y, float)
    r = a.interp2(x, y, xn, yn, f)
    k = int(rng.integers(len(x)))
    c.ok(abs(a.interp2(x[k:k+1], y[k:k+1], xn, yn, f)[0] - r[k]) <= EPS*mag(x, y, xn, yn, f)[k], 'a query alone')
    p = rng.permutation(len(x))
    c.ok(np.all(np.abs(a.interp2(x[p], y[p], xn, yn, f) - r[p]) <= EPS*mag(x, y, xn, yn, f)[p]), 'queries in another order')
    if len(x) > 1:
        bad = x.copy(); bad[k] = float(rng.choice([np.nan, np.inf, 1e300]))
        o = np.arange(len(x)) != k
        r2 = a.interp2(bad, y, xn, yn, f)
        c.ok(np.all(np.abs(r2[o] - r[o]) <= EPS*mag(x, y, xn, yn, f)[o]), 'a bad query does not disturb the others')
    c.ok(np.array_equal(a.interp2(x, y, xn, yn, f), r), 'repeatable')

def case_scalars(c):
    x, y, xn, yn, f = setup(c)
    r = api().interp2(float(x[0]), float(y[0]), xn, yn, f)
    c.ok(np.ndim(r) == 0, 'scalar query gives a scalar')

def case_misfit(c):
    lagr.misfit(c, 'interp2')
