"""C16: linearity of kG in the pre-buckling state."""
import numpy as np
import scipy.linalg
from . import gen, ref
from .common import *
RULE = ('kG of one mesh at related displacement vectors (combinations, scalings, rigid motions, deflections, load reversal), plus critical loads of small supported '
        'plates under scaled loads; distinct by mesh, mode and relation')
KINDS = [('combine', 4), ('decades', 3), ('nullstates', 4), ('rowsum', 2), ('eigen', 2)]
NEED_EVENTS = ['calc_kG']
MIN_CASES = 60

def S_of(p, *ds):
    S = sum(ref.kG(p.snap(), p.mode, d, parts=True)[1] for d in ds)
    return np.maximum(S, 1e-6*S.max())

def start(c, **kw):
    p = Problem(c, **kw)
    api().calc_k0(p.mesh, p.mode)
    return p

def case_combine(c):
    rng, a = c.rng, api()
    p = start(c)
    d1, d2 = rng.normal(size=(2, 5*p.n))
    s, t = float(rng.choice([-1, 2., 1e-6, 1e5, rng.normal()])), float(rng.normal())
    g1, g2 = a.calc_kG(d1, p.mesh, p.mode), a.calc_kG(d2, p.mesh, p.mode)
    c.close(a.calc_kG(s*d1 + t*d2, p.mesh, p.mode), s*g1 + t*g2, 'linear in the displacements', tol=1e-8, scale=abs(s)*S_of(p, d1) + abs(t)*S_of(p, d2), factors=(s, t))
    c.close(a.calc_kG(-d1, p.mesh, p.mode), -g1, 'load reversal reverses the sign', tol=1e-10, scale=S_of(p, d1))
    i1 = rng.integers(-3, 4, 5*p.n) if rng.random() < .7 else rng.integers(-10**6, 10**6, 5*p.n)
    if rng.random() < .3:
        i1 = i1.astype(np.int32)
    gi = a.calc_kG(i1, p.mesh, p.mode)
    c.close(a.calc_kG(s*d1 + i1, p.mesh, p.mode), s*g1 + gi, 'linear in the displacements', tol=1e-8, scale=abs(s)*S_of(p, d1) + S_of(p, i1.astype(float)), factors=(s, 'integers'))
    z = a.calc_kG(np.zeros(5*p.n), p.mesh, p.mode)
    c.ok(not z.any(), 'no displacement, no geometric stiffness')
    describe(c, p, relation='combine')

def case_decades(c):
    """A small state on top of a big one still counts in full."""
    rng, a = c.rng, api()
    p = start(c)
    xy = p.xy() - p.xy().mean(axis=0)
    one = np.zeros((p.n, 5))
    for i in rng.choice([0, 1, 3, 4], int(rng.integers(1, 3)), replace=False):
        one[:, i] = xy @ (np.eye(2)[int(rng.integers(2))] if rng.random() < .7 else rng.normal(size=2))
    d1 = p.vec(one)
    L = np.abs(xy).max()
    d2 = rng.normal(size=5*p.n)*L
    if rng.random() < .4:
        other = np.zeros((p.n, 5)); other[:, int(rng.choice([0, 1, 3, 4]))] = xy @ np.eye(2)[int(rng.integers(2))]
        d2 = p.vec(other)
    elif rng.random() < .4:
        k = int(rng.integers(p.n))
        d2 = np.zeros((p.n, 5)); d2[k] = rng.normal(size=5)*L
        d2 = p.vec(d2)
    s = 10.**rng.uniform(-10.5, -3)
    g1, g2 = a.calc_kG(d1, p.mesh, p.mode), a.calc_kG(d2, p.mesh, p.mode)
    S1, S2 = S_of(p, d1), S_of(p, d2)
    c.close(a.calc_kG(d1 + s*d2, p.mesh, p.mode), g1 + s*g2, 'a small state on top of a big one counts in full', tol=1., scale=1e-8*s*S2 + 3e-13*S1, ratio=s)
    describe(c, p, relation='decades', ratio=s)

def case_nullstates(c):
    rng, a = c.rng, api()
    p = start(c)
    xy = p.xy(); x, y = xy[:, 0], xy[:, 1]
    one, z = np.ones(p.n), np.zeros(p.n)
    L = p.spec.size()
    for nm, U in (('u', (one, z, z, z, z)), ('v', (z, one, z, z, z)), ('in-plane rotation', (-y/L, x/L, z, z, z)),
                  ('phix', (z, z, z, one, z)), ('phiy', (z, z, z, z, one)), ('any w', (z, z, rng.normal(size=p.n), z, z)),
                  ('all', (2*one - y/L, x/L - one, rng.normal(size=p.n), 3*one, -one))):
        d = p.vec(np.array(U).T)
        g = a.calc_kG(d, p.mesh, p.mode)
        if nm == 'any w':
            c.ok(not g.any(), 'zero for ' + nm)
        else:
            S = ref.kG(p.snap(), p.mode, d, parts=True)[1]
            c.ok(np.abs(g).max() <= 1e-9*S.max(), 'zero for ' + nm, biggest=float(np.abs(g).max()), magnitude=float(S.max()))
    # w does not matter, rigid parts do not matter
    d = rng.normal(size=5*p.n)
    d2 = d.copy(); d2[2::5] = rng.normal(size=p.n)*10.**rng.choice([0, rng.uniform(-30, 40)])
    c.close(a.calc_kG(d2, p.mesh, p.mode), a.calc_kG(d, p.mesh, p.mode), 'independent of w', tol=1e-12, scale=S_of(p, d))
    r = p.vec(np.array([2*one - y/L, x/L - one, z, 3*one, -one]).T)
    c.close(a.calc_kG(d+r, p.mesh, p.mode), a.calc_kG(d, p.mesh, p.mode), 'independent of rigid motion', tol=1e-8, scale=S_of(p, d, r))
    describe(c, p, relation='null states')

def case_rowsum(c):
    rng, a = c.rng, api()
    p = start(c, big=rng.random() < .3)
    g = a.calc_kG(rng.normal(size=5*p.n), p.mesh, p.mode)
    one = np.tile([0, 0, 1., 0, 0], p.n)
    c.ok(np.all(np.abs(g @ one) <= 1e-9*np.abs(g) @ one + 1e-12*np.abs(g).max()), 'rows sum to zero')
    c.ok(np.all(np.abs(one @ g) <= 1e-9*one @ np.abs(g) + 1e-12*np.abs(g).max()), 'columns sum to zero')
    c.ok(np.abs(g).max() > 0, 'a generic state has geometric stiffness')
    describe(c, p, relation='row sums')

def case_eigen(c):
    """Critical load factors scale inversely with the reference load."""
    rng, a = c.rng, api()
    pts, tris = gen.grid(rng, int(rng.integers(2, 5)), int(rng.integers(2, 5)), *rng.uniform(.7, 2, 2))
    s = gen.Spec(pts, tris, base='grid')
    q = gen.laminate(rng, .03*rng.uniform(.3, 1))
    p = Problem(c, spec=s, prop=q)
    K = a.calc_k0(p.mesh, p.mode)
    a.add_k0s(K, p.mesh, p.mode)
    x, y = pts.T
    fixed = np.zeros((p.n, 5), bool)
    left, edge = x < 1e-9, (x < 1e-9) | (x > x.max()-1e-9) | (y < 1e-9) | (y > y.max()-1e-9)
    fixed[left, 0] = True; fixed[left & (y < 1e-9), 1] = True; fixed[edge, 2] = True
    if left.sum() == 0:
        return
    fv = np.zeros(5*p.n, bool); fv[p.dofs()] = fixed.ravel()
    F = np.zeros((p.n, 5)); F[x > x.max()-1e-9, 0] = -1.
    F[:, 1] = rng.normal(size=p.n)*.1
    f = p.vec(F)
    fr = ~fv
    d = np.zeros(5*p.n); d[fr] = np.linalg.solve(K[np.ix_(fr, fr)], f[fr])
    def loads(dd):
        g = a.calc_kG(dd, p.mesh, p.mode)
        B, A = K[np.ix_(fr, fr)], g[np.ix_(fr, fr)]
        mu = scipy.linalg.eigh(-A, B, eigvals_only=True)
        return mu            # 1/load factor
    m1 = loads(d)
    t = float(rng.choice([2., .1, 1e3]))
    m2 = loads(t*d)
    top = np.abs(m1).max()
    c.ok(np.abs(m2/t - m1).max() <= 1e-6*top, 'critical factors scale inversely with the load', t=t, got=m2[-3:]/t, expected=m1[-3:])
    m3 = loads(-d)
    c.ok(np.abs(m3 + m1[::-1]).max() <= 1e-6*top, 'load reversal reverses the factors', got=m3[:3], expected=-m1[::-1][:3])
    describe(c, p, relation='eigen', t=t)
