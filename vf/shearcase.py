"""Workloads shared by C10, C11, C12 (one transverse shear method each)."""
import numpy as np
from . import gen, ref
from .common import *

def psd(c, s, what):
    sc = ref_scale(s)
    d = np.sqrt(np.diag(sc))
    w = np.linalg.eigvalsh(.5*(s+s.T)/sc)
    c.ok(w[0] >= -1e-9*max(w[-1], 1e-300), what + ' is positive semidefinite', lowest=float(w[0]), highest=float(w[-1]))

def reference(c, method, **kw):
    rng, a = c.rng, api()
    watch_k0s(c, (method,))
    units = bool(rng.random() < .3)
    p = Problem(c, uncoupled=method == 'edge-based' or bool(rng.random() < .3), units=units, thick=True, **kw)
    k = a.calc_k0(p.mesh, p.mode)
    al, ao = gen.alpha_of(rng), flag(rng, rng.integers(2))
    start = np.zeros_like(k) if rng.random() < .7 else k
    b = start.copy()
    s = a.add_k0s(start, p.mesh, p.mode, method=method, alpha=al, maxl_from_area=ao) - b
    if not b.any():
        if not units:
            c.close(s, s.T, method + ' is symmetric', tol=1e-8, scale=ref_scale(s))
        if p.n < 40 and not units:
            psd(c, s, method)
        # the other assignment mode on the same mesh
    describe(c, p, alpha=al, area=ao)
    return p

def other_mode(c, method, **kw):
    rng, a = c.rng, api()
    watch_k0s(c, (method,))
    p = Problem(c, uncoupled=method == 'edge-based', **kw)
    m2, _ = gen.assign(rng, p.spec, p.nodes, p.trias, not p.mode, uncoupled=method == 'edge-based')
    a.calc_k0(p.mesh, p.mode)
    for mode in (p.mode, m2, p.mode):
        a.add_k0s(np.zeros((5*p.n, 5*p.n)), p.mesh, mode, method=method, alpha=gen.alpha_of(rng), maxl_from_area=flag(rng, rng.integers(2)))
    describe(c, p, both=True)

def energies(c, method, spec=None, uniform=True, judge=True):
    """Rigid motion stores nothing; linear w stores the exact constant-shear energy."""
    rng, a = c.rng, api()
    p = Problem(c, spec=spec, uniform=True, uncoupled=True)
    q = (p.nodes if p.mode else p.trias)[0].prop
    L = p.spec.size()
    if rng.random() < .6:
        # thick: shear and stabilisation of comparable size
        f = L*rng.uniform(.02, .5)/float(q.h)
    a.calc_k0(p.mesh, p.mode)
    al = 0. if rng.random() < .5 else gen.alpha_of(rng)
    s = a.add_k0s(np.zeros((5*p.n, 5*p.n)), p.mesh, p.mode, method=method, alpha=al)
    xy = p.xy(); x, y = xy[:, 0], xy[:, 1]
    z, one = np.zeros(p.n), np.ones(p.n)
    res = []
    for _ in range(2):
        c0, cx, cy = rng.normal(size=3)*np.array([L, 1, 1])
        U = np.array([z, z, c0 + cx*x + cy*y, -cx*one, -cy*one]).T
        v = p.vec(U)
        f = s @ v
        m = np.abs(s) @ np.abs(v)
        ok = np.all(np.abs(f) <= 1e-8*m + 1e-12*m.max())
        res.append((ok, 'rigid plate motion stores no energy', dict(energy=float(v @ f), magnitude=float(m.max()))))
        # linear w, zero rotations
        U = np.array([z, z, c0 + cx*x + cy*y, z, z]).T
        v = p.vec(U)
        gxz, gyz = q.scf_k13*q.E[1, 1], q.scf_k23*q.E[0, 0]
        sn = p.snap()
        if method == 'edge-based':
            want = 0.
            for e, ts in sn.edges.items():
                At = sum(sn.area[t] for t in ts)/3
                lens = [np.linalg.norm(sn.xyz[e[0]]-sn.xyz[e[1]])]
                for t in ts:
                    mid = sn.xyz[list(sn.tris[t])].mean(axis=0)
                    lens += [np.linalg.norm(mid-sn.xyz[i]) for i in e]
                want += At/(1+al*max(lens)**2/q.h**2)*(gxz*cx**2 + gyz*cy**2)
        else:
            want = sum(A/(1+al*ref.lmax(sn, t)**2/q.h**2) for t, A in enumerate(sn.area))*(gxz*cx**2 + gyz*cy**2)
        got = v @ s @ v
        mag = np.abs(v) @ np.abs(s) @ np.abs(v)
        res.append((abs(got-want) <= 1e-7*abs(want) + 1e-11*mag, 'linear w stores the constant-shear energy', dict(got=float(got), expected=float(want), alpha=al)))
    describe(c, p, alpha=al, energies=True)
    return p, al, s, res

def report(c, method, res):
    for ok, what, data in res:
        c.ok(ok, method + ': ' + what, **data)
