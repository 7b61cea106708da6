"""Workloads and online oracle for the Lagrange interpolation functions."""
import numpy as np
from . import ref, env
from .common import api

def nodes(rng, n, how=None):
    how = how or str(rng.choice(['random', 'uniform', 'cheb', 'int', 'offset', 'clustered', 'negative', 'scaled', 'far', 'span']))
    if how == 'int':
        v = rng.choice(np.arange(-12, 13), n, replace=False).astype(np.int64)
    elif how == 'uniform':
        v = np.linspace(0, 1, n)*float(rng.choice([1, 10, 1e-3]))
    elif how == 'cheb':
        v = -np.cos(np.pi*(np.arange(n)+.5)/n)
    elif how == 'offset':
        v = 1e5 + np.cumsum(rng.uniform(.2, 1, n))
    elif how == 'clustered':
        v = np.cumsum(10.**rng.uniform(-4, 0, n))
    elif how == 'negative':
        v = -np.cumsum(rng.uniform(.2, 1, n))
    elif how == 'scaled':       # nanometres to astronomic
        v = (np.cumsum(rng.uniform(.3, 1, n)) - 1)*10.**rng.uniform(-15, 15)
    elif how == 'far':          # far from the origin compared with their span
        v = (float(rng.choice([-1, 1]))*10.**rng.uniform(1, 7) + np.cumsum(rng.uniform(.3, 1, n)))*10.**rng.uniform(-6, 6)
    elif how == 'span':         # spacings over many decades
        v = np.cumsum(10.**rng.uniform(-9, 3, n))
        if len(np.unique(v)) < n:
            v = np.cumsum(10.**rng.uniform(-3, 3, n))
    else:
        v = np.cumsum(rng.uniform(.3, 1, n)) - 1
    if rng.random() < .5:
        v = v[rng.permutation(n)]
    return how, v

def queries(rng, nd, k, how=None):
    how = how or str(rng.choice(['inside', 'outside', 'nodes', 'mixed', 'int']))
    lo, hi = float(nd.min()), float(nd.max())
    w = (hi - lo) or 1.
    if how == 'inside':
        return how, rng.uniform(lo, hi, k)
    if how == 'outside':
        return how, rng.uniform(lo - 2*w, hi + 2*w, k)
    if how == 'nodes':
        return how, np.array(nd, float)[rng.integers(0, len(nd), k)]
    if how == 'int':
        return how, rng.integers(int(np.floor(lo))-1, int(np.ceil(hi))+2, k)
    q = rng.uniform(lo - .3*w, hi + .3*w, k)
    m = rng.random(k) < .4
    q[m] = np.array(nd, float)[rng.integers(0, len(nd), int(m.sum()))]
    return how, q

def dress(rng, v, allow=('array', 'list', 'tuple', 'readonly', 'strided', 'fortran', 'float', 'int32')):
    """The same values in another container."""
    v = np.asarray(v)
    h = str(rng.choice(allow))
    if h == 'list':
        return v.tolist()
    if h == 'tuple' and v.ndim == 1:
        return tuple(v.tolist())
    if h == 'readonly':
        r = v.copy(); r.flags.writeable = False
        return r
    if h == 'strided':
        b = np.zeros(tuple(2*s for s in v.shape), v.dtype)
        b[tuple(slice(None, None, 2) for _ in v.shape)] = v
        return b[tuple(slice(None, None, 2) for _ in v.shape)]
    if h == 'fortran':
        return np.asfortranarray(v)
    if h == 'float':
        return v.astype(float)
    if h == 'int32' and v.dtype.kind == 'i':
        return v.astype(np.int32)
    return v.copy()

def value(ws, f):
    """sum of products of weights, and its magnitude"""
    f = np.asarray(f, np.longdouble)
    sub = 'ab,ac,bc->a' if len(ws) == 2 else 'ab,ac,ad,bcd->a'
    r = np.einsum(sub, *ws, f)
    m = np.einsum(sub, *[np.abs(w) for w in ws], np.abs(f))
    return r.astype(float), m.astype(float)

def arr(x):
    return np.atleast_1d(np.asarray(x, float))

def watch(c, name):
    """Online oracle on every call."""
    dims = 2 if name == 'interp2' else 3
    keys = ['x', 'y', 'z'][:dims]
    def post(ev):
        if ev.args is None or ev.exc is not None:
            return
        qs = np.broadcast_arrays(*[arr(ev.args[k]) for k in keys])
        if qs[0].ndim != 1 or not all((np.abs(q) < 1e15).all() for q in qs):
            return
        nds = [np.asarray(ev.args[k + '_nodes']) for k in keys]
        judge(c, qs, nds, np.asarray(ev.args['field_nodes']), arr(ev.ret))
    c.mon.subscribe(name, post=post)

TOL = 1e-11

def judge(c, qs, nds, f, got):
    what = 'tensor-product Lagrange interpolant'
    with np.errstate(all='ignore'):
        ws = [ref.lagrange_weights(q, n) for q, n in zip(qs, nds)]
        want, mag = value(ws, f)
        if len(nds) == 3 and got.shape == (1,) and [len(n) for n in nds] == [1, 1, 2] and float(nds[2][1]) == float(nds[1][0]):
            got = np.repeat(got, len(want))     # under the known finding no query coordinate enters any product
        if got.shape != want.shape:
            return c.ok(False, what, why='shape %s for %d queries' % (got.shape, len(want)))
        good = np.abs(got - want) <= TOL*mag
        if good.all() or len(nds) == 2:
            i = int(np.argmax(~good))
            return c.ok(good.all(), what, query=[float(q[i]) for q in qs], got=float(got[i]), expected=float(want[i]), nodes=[n.tolist() for n in nds])
        # known finding: exactly that deviation, everywhere
        wq = [ws[0], ws[1], ref.lagrange_z_quirk(qs[2], nds[2], nds[1])]
        q, qm = value(wq, f)
        if np.all(np.abs(got - q) <= TOL*qm):
            c.checks += 1
            c.stats['oracle:' + what + ' (known finding F-LAG3)'] += 1
            c.finding('F-LAG3', F_LAG)
            return True
        i = int(np.argmax(~good))
        return c.ok(False, what, query=[float(x[i]) for x in qs], got=float(got[i]), expected=float(want[i]), nodes=[n.tolist() for n in nds])

F_LAG = ("3D Lagrange interpolation: the products in z in interpolate_lagrange_3D run over y_nodes instead of z_nodes, so the result is not the "
         "interpolant unless z_nodes equals y_nodes (observed values equal that, and only that, deviation)")

def misfit(c, name):
    """Control values of another shape than the control nodes are refused."""
    rng = c.rng
    k = 2 if name == 'interp2' else 3
    sh = [int(x) for x in rng.integers(1, 6, k)]
    bad = list(sh)
    how = str(rng.choice(['longer', 'shorter', 'transposed', 'ndim', 'flat']))
    i = int(rng.integers(k))
    if how == 'longer':
        bad[i] += int(rng.integers(1, 4))
    elif how == 'shorter':
        bad[i] = max(bad[i]-1, 1)
    elif how == 'transposed':
        bad = bad[1:] + bad[:1]
    elif how == 'flat':
        bad = [int(np.prod(sh))]
    else:
        bad = bad + [1] if rng.random() < .5 else [1] + bad
    if bad == sh:
        bad[i] += 1
    nodes_ = [np.sort(rng.uniform(0, 1, n)) + np.arange(n) for n in sh]
    q = [rng.uniform(0, 2, 3) for _ in sh]
    F = rng.normal(size=bad)
    if rng.random() < .3:
        F = F.tolist()
    f = getattr(env.mod('meshless.interpolate'), 'interpolate_lagrange_%dD' % k)
    try:
        r = f(*(q + nodes_ + [F]))
    except Exception:
        r = None
    c.ok(r is None, 'control values of a wrong shape are refused', control_nodes=sh, values=bad, got=np.shape(r) if r is not None else '')
    c.sig(name, sh, bad, q[0])
    c.stats['misfit ' + how] += 1
    c.note(control_nodes=sh, values=bad)
