"""C05: symmetry, definiteness, null space, exactness for linear fields."""
import numpy as np
from . import gen, ref
from .common import *
RULE = ('random meshes and property fields as in C04; for every stiffness matrix the monitor evaluates symmetry, eigenvalues, the response to rigid fields and '
        'the energy and forces of random linear fields; distinct by mesh data and mode')
KINDS = [('any', 3), ('linear', 4), ('big', 1), ('large', .15)]
NEED_EVENTS = ['calc_k0']
MIN_CASES = 60

def struct(c, k, n, psd=True):
    sc = ref_scale(k)
    c.close(k, k.T, 'symmetric', tol=1e-8, scale=sc)
    K = k.reshape(n, 5, n, 5)
    c.ok(not K[:, 2].any() and not K[:, :, :, 2].any(), 'no entry in w rows or columns',
         biggest=float(max(abs(K[:, 2]).max(), abs(K[:, :, :, 2]).max())))
    if psd:
        d = np.sqrt(np.diag(sc))
        w = np.linalg.eigvalsh(.5*(k + k.T)/sc)
        c.ok(w[0] >= -1e-9*max(w[-1], 1e-300), 'positive semidefinite', lowest=float(w[0]), highest=float(w[-1]))

def rigid(c, p, k, what='no force under rigid motion'):
    xy = p.xy(); x, y = xy[:, 0], xy[:, 1]
    one, z = np.ones(p.n), np.zeros(p.n)
    for name, U in (('u', (one, z, z, z, z)), ('v', (z, one, z, z, z)), ('rotation', (-y, x, z, z, z)),
                    ('phix', (z, z, z, one, z)), ('phiy', (z, z, z, z, one))):
        v = p.vec(np.array(U).T)
        f = k @ v
        mag = np.abs(k) @ np.abs(v)
        c.ok(np.all(np.abs(f) <= 1e-9*mag + 1e-9*mag.max()*1e-6), what + ' ' + name, biggest=float(np.abs(f).max()), magnitude=float(mag.max()))

def case_any(c, **kw):
    p = Problem(c, **kw)
    k = api().calc_k0(p.mesh, p.mode)
    struct(c, k, p.n)
    rigid(c, p, k)
    describe(c, p)

def case_big(c):
    case_any(c, big=True)

def case_large(c):
    p = Problem(c, kind='large', scale=1.)
    k = api().calc_k0(p.mesh, p.mode)
    struct(c, k, p.n, psd=False)
    rigid(c, p, k)
    describe(c, p)

def interior(spec):
    b = set()
    for e, ts in spec.edges().items():
        if len(ts) == 1:
            b |= set(e)
    return [i for i in spec.used() if i not in b]

def case_linear(c):
    rng = c.rng
    p = Problem(c, uniform=True, big=rng.random() < .2)
    q = (p.nodes if p.mode else p.trias)[0].prop
    k = api().calc_k0(p.mesh, p.mode)
    C = np.block([[q.A, q.B], [q.B, q.D]])
    area = np.abs(p.spec.areas()).sum()
    xy = p.xy()
    h = float(q.h)
    for trial in range(3):
        g = rng.normal(size=(5, 2))
        if trial == 2:                  # one single component
            g[np.arange(5) != rng.choice([0, 1, 3, 4])] = 0
        g[3:] /= h
        c0 = rng.normal(size=5)*p.spec.size()
        U = np.array([c0[i] + xy @ g[i] for i in range(5)]).T
        v = p.vec(U)
        e = np.array([g[0, 0], g[1, 1], g[0, 1]+g[1, 0], g[3, 0], g[4, 1], g[3, 1]+g[4, 0]])
        want = area*e @ C @ e
        got = v @ k @ v
        mag = np.abs(v) @ np.abs(k) @ np.abs(v)
        c.ok(abs(got-want) <= 1e-7*abs(want) + 1e-11*mag, 'energy of a linear field', got=float(got), expected=float(want), strains=e)
        f = k @ v
        m = np.abs(k) @ np.abs(v)
        for i in interior(p.spec):
            ix = 5*int(p.nodes[i].index) + np.arange(5)
            if not c.ok(np.all(np.abs(f[ix]) <= 1e-8*m[ix] + 1e-14*m.max()), 'no force at inner nodes under a linear field', node=i, force=f[ix], magnitude=m[ix]):
                break
            c.stats['inner nodes'] += 1
    describe(c, p, uniform=True)
