"""C22: 3D Lagrange interpolation."""
import numpy as np
from . import lagr, ref
from .common import *
RULE = ('random control grids (1..7 nodes per direction, integer/clustered/offset/unsorted), values and queries (inside, outside, at nodes) in lists and arrays; every call is compared with '
        'extended-precision weights, or, where z_nodes differs from y_nodes, with exactly the known finding; relations on grids with equal y and z nodes; distinct by nodes, values, queries')
KINDS = [('any', 4), ('same_yz', 4), ('nodes', 2), ('polynomial', 2), ('relations', 3), ('independent', 2), ('reduces', 2), ('misfit', .5)]
NEED_EVENTS = ['interp3']
MIN_CASES = 80
EPS = lagr.TOL

def setup(c, same=True, hi=7):
    rng = c.rng
    lagr.watch(c, 'interp3')
    while True:
        M, N, P = rng.integers(1, hi+1, 3) if rng.random() < .3 else rng.integers(1, 5, 3)
        if M*N*P > 1 and (not same or M*N > 1):
            break
    hx, xn = lagr.nodes(rng, M)
    hy, yn = lagr.nodes(rng, N)
    hz, zn = (hy, yn.copy()) if same else lagr.nodes(rng, P)
    sh = (len(xn), len(yn), len(zn))
    fh = str(rng.choice(['normal', 'int', 'unit', 'big']))
    f = rng.normal(size=sh)
    if fh == 'int':
        f = rng.integers(-9, 10, sh)
    elif fh == 'unit':
        f = np.zeros(sh); f[tuple(rng.integers(s) for s in sh)] = 1
    elif fh == 'big':
        f = f*10.**rng.uniform(-12, 12, sh)
    K = int(rng.choice([1, 2, 3, M, N, 17])) if rng.random() > .03 else int(10**rng.uniform(2, 4))
    xyz = [lagr.queries(rng, n, K)[1] for n in (xn, yn, zn)]
    c.note(shape=sh, nodes=(hx, hy, hz), values=fh, first=[float(v[0]) for v in xyz])
    c.sig(xn, yn, zn, np.asarray(f, float), *[np.asarray(v, float) for v in xyz])
    c.stats['grid with equal y and z nodes' if same else 'general grid'] += 1
    return xyz, (xn, yn, zn), f

def mag(q, n, f):
    return lagr.value([ref.lagrange_weights(a, b) for a, b in zip(q, n)], f)[1]

def call(q, n, f):
    return api().interp3(*q, *n, f)

def case_any(c, same=False):
    rng = c.rng
    q, n, f = setup(c, same)
    g = lagr.dress
    al = ('array', 'readonly', 'strided', 'float', 'list')
    api().interp3(*[g(rng, v, al) for v in q], *[g(rng, v) for v in n], g(rng, f))

def case_same_yz(c):
    case_any(c, True)

def case_nodes(c):
    q, n, f = setup(c, True)
    X = np.meshgrid(*n, indexing='ij')
    r = call([v.ravel() for v in X], n, f)
    c.ok(np.all(np.abs(r - np.asarray(f).ravel()) <= 1e-12*np.abs(f).ravel()), 'control values at control nodes')

def case_polynomial(c):
    rng = c.rng
    q, n, f = setup(c, True)
    q = [np.asarray(v, float) for v in q]
    cs = [(np.mean(v), np.ptp(v) or 1) for v in n]
    C = rng.normal(size=f.shape)
    P = lambda *a: np.polynomial.polynomial.polyval3d(*[(v-m)/w for v, (m, w) in zip(a, cs)], C)
    F = P(*np.meshgrid(*n, indexing='ij'))
    r = call(q, n, F)
    c.ok(np.all(np.abs(r - P(*q)) <= 1e-11*mag(q, n, np.abs(F) + np.abs(C).sum())), 'reproduces polynomials')
    one = call(q, n, np.ones_like(F))
    c.ok(np.all(np.abs(one - 1) <= 1e-11*mag(q, n, np.ones_like(F))), 'weights sum to one')

def case_relations(c):
    rng = c.rng
    q, n, f = setup(c, True)
    f = np.asarray(f, float)
    r, m = call(q, n, f), mag(q, n, f)
    g = rng.normal(size=f.shape)*np.abs(f).max()
    s = float(rng.normal())
    c.ok(np.all(np.abs(call(q, n, f + s*g) - r - s*call(q, n, g)) <= EPS*(m + abs(s)*mag(q, n, g))), 'linear in the values')
    p, k = rng.permutation(len(n[0])), rng.permutation(len(n[1]))
    r2 = call(q, (n[0][p], n[1][k], n[2][k]), f[np.ix_(p, k, k)])
    c.ok(np.all(np.abs(r2 - r) <= EPS*m), 'order of control nodes does not matter')
    t = call([q[0], q[2], q[1]], (n[0], n[2], n[1]), f.transpose(0, 2, 1))
    c.ok(np.all(np.abs(t - r) <= EPS*m), 'swapping y and z')
    r3 = call([list(map(float, v)) for v in q], [v.tolist() for v in n], f.tolist())
    c.ok(np.all(np.abs(np.asarray(r3) - r) <= EPS*m), 'lists or arrays')

def case_independent(c):
    rng = c.rng
    q, n, f = setup(c, bool(rng.random() < .6))
    q = [np.array(v, float) for v in q]
    r = call(q, n, f)
    k = int(rng.integers(len(q[0])))
    c.ok(np.array_equal(call(q, n, f), r), 'repeatable')
    lim = EPS*(np.abs(r) + mag(q, n, f) + lagr.value([ref.lagrange_weights(q[0], n[0]), ref.lagrange_weights(q[1], n[1]), ref.lagrange_z_quirk(q[2], n[2], n[1])], f)[1])
    c.ok(np.all(np.abs(call([v[k:k+1] for v in q], n, f) - r[k]) <= lim[k]), 'a query alone')
    if len(q[0]) > 1:
        b = [v.copy() for v in q]
        b[int(rng.integers(3))][k] = float(rng.choice([np.nan, np.inf, 1e250]))
        o = np.arange(len(q[0])) != k
        c.ok(np.array_equal(call(b, n, f)[o], r[o]) or np.all(np.abs(call(b, n, f)[o] - r[o]) <= lim[o]), 'a bad query does not disturb the others')

def case_reduces(c):
    """Values constant along one direction: the 2D interpolant."""
    rng = c.rng
    q, n, f = setup(c, True)
    f = np.asarray(f, float)
    ax = int(rng.integers(3))
    F = np.repeat(np.take(f, [0], axis=ax), f.shape[ax], axis=ax)
    o = [i for i in range(3) if i != ax]
    F2 = np.take(F, 0, axis=ax)
    r = call(q, n, F)
    if F2.size > 1:
        r2 = api().interp2(q[o[0]], q[o[1]], n[o[0]], n[o[1]], F2)
        c.ok(np.all(np.abs(r - r2) <= EPS*mag(q, n, F)), 'reduces to 2D interpolation', axis=ax)

def case_misfit(c):
    lagr.misfit(c, 'interp3')
