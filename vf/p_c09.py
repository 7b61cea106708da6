"""C09: rigid motion and scaling of the whole problem."""
import types
import numpy as np
from . import gen, ref
from .common import *
RULE = ('pairs of analyses of a mesh and its translated, rotated (isotropic: any angle; any laminate: multiples of 90 degrees with the laminate rotated along), mirrored (x -> -x or y -> -y with the laminate mirrored along) or '
        'scaled copy, matrices compared after the corresponding change of basis; distinct by mesh and transformation')
KINDS = [('translate', 3), ('rotate_iso', 3), ('rotate90', 3), ('mirror', 2), ('scale', 3)]
NEED_EVENTS = ['calc_k0', 'calc_kG', 'add_k0s']
MIN_CASES = 60
CELLS = METH[:2]

def run(c, spec, props, mode, D, al, ao, route):
    m, nodes, trias = gen.build(c.rng, spec, c.tmp, route)
    for it, q in zip(nodes if mode else trias, props):
        it.prop = q
    a = api()
    k = a.calc_k0(m, mode)
    idx = np.array([int(n.index) for n in nodes])
    dof = (5*idx[:, None] + np.arange(5)).ravel()
    v = np.zeros(5*spec.n); v[dof] = D.ravel()
    out = dict(k0=k, kG=a.calc_kG(v, m, mode))
    for me in CELLS:
        out[me] = a.add_k0s(np.zeros_like(k), m, mode, method=me, alpha=al, maxl_from_area=ao)
    return {nm: x[np.ix_(dof, dof)] for nm, x in out.items()}

def base(c, iso=False, **kw):
    rng = c.rng
    s = gen.mesh(rng, rotate=bool(rng.random() < .5), **kw)
    m, nodes, trias = gen.build(rng, s, c.tmp, 'delaunay')
    if iso:
        mode = bool(rng.random() < .5)
        items = nodes if mode else trias
        h = s.size()*float(rng.choice([.001, .01, .1]))
        scf = float(rng.uniform(.5, 1))
        pool = [gen.laminate(rng, h*rng.uniform(.8, 1.2), 7e10, iso=True, scf=scf) for _ in range(3)]
        props = [pool[int(rng.integers(3))] for _ in items]
    else:
        mode, props = gen.assign(rng, s, nodes, trias)
    D = rng.normal(size=(s.n, 5))
    al, ao = gen.alpha_of(rng), bool(rng.integers(2))
    route = str(rng.choice(['delaunay', 'delaunay', 'deck']))
    B = run(c, s, props, mode, D, al, ao, route)
    sn = ref.Snap.of(s.pts, s.tris, props if mode else None, None if mode else props)
    S = ref.kG(sn, mode, D.ravel(), parts=True)[1]
    sc = {nm: ref_scale(x) for nm, x in B.items()}
    sc['kG'] = np.maximum(S, 1e-6*S.max())
    return s, props, mode, D, al, ao, route, B, sc

def case_translate(c):
    rng = c.rng
    s, props, mode, D, al, ao, route, B, sc = base(c, translate=0., z=0.)
    L = s.size()
    for how in ('xy', 'z', 'negative'):
        t = s.copy()
        f = float(rng.choice([.5, 1., 10., 100.]))
        if how == 'xy':
            t.pts = s.pts + np.r_[rng.uniform(-1, 1, 2), 0]*f*L
        elif how == 'z':
            t.pts = s.pts + np.array([0, 0, float(rng.choice([-1, 1]))])*f*L
        else:
            t.pts = s.pts - np.r_[s.pts[:, :2].max(axis=0)*1.5 + f*L, f*L]
        R = run(c, t, props, mode, D, al, ao, route)
        tol = 1e-8*(1+f)
        for nm in B:
            c.close(R[nm], B[nm], '%s is unchanged under translation (%s)' % (nm, how), tol=max(tol, 1e-8), scale=sc[nm], factor=f)
    c.sig(s.key(), 'translate', mode)
    c.note(mesh=s.describe(), mode=mode)

def T5(n, co, si):
    """Block matrix mapping rotated displacements to the original ones."""
    T = np.zeros((5, 5))
    T[:2, :2] = [[co, -si], [si, co]]
    T[2, 2] = 1
    T[3:, 3:] = [[co, -si], [si, co]]
    return np.kron(np.eye(n), T)

def rotated(s, co, si, centre):
    t = s.copy()
    x, y = (s.pts[:, :2] - centre).T
    t.pts = np.c_[co*x - si*y + centre[0], si*x + co*y + centre[1], s.pts[:, 2]]
    return t

def case_rotate_iso(c):
    rng = c.rng
    s, props, mode, D, al, ao, route, B, sc = base(c, iso=True)
    ang = float(rng.choice([rng.uniform(0, 2*np.pi), np.pi/4, np.pi/3, np.pi]))
    co, si = np.cos(ang), np.sin(ang)
    t = rotated(s, co, si, s.pts[s.used(), :2].mean(axis=0)*float(rng.integers(2)))
    T = T5(s.n, co, si)
    Dr = (T @ D.ravel()).reshape(-1, 5)
    R = run(c, t, props, mode, Dr, al, ao, route)
    for nm in B:
        # energies of rotated fields: U' = T U, so K must equal T^t K' T
        S = sc[nm]
        big = np.abs(T.T) @ S @ np.abs(T)
        tol = 1e-6 if s.tags.get('offset') else 1e-7
        c.close(T.T @ R[nm] @ T, B[nm], '%s energies are unchanged under rotation (isotropic)' % nm, tol=tol, scale=np.maximum(big, S), angle=ang)
    c.sig(s.key(), 'rotate', ang)
    c.note(mesh=s.describe(), mode=mode, angle=ang)

def rot_prop(p, q):
    """The laminate turned by q*90 degrees."""
    P = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1.]])
    A, B, D, E, k13, k23 = p.A, p.B, p.D, p.E, p.scf_k13, p.scf_k23
    for _ in range(q):
        A, B, D = (P @ X @ P.T for X in (A, B, D))
        # yz <-> xz, the coupling changes sign
        E = np.array([[E[1, 1], -E[0, 1]], [-E[1, 0], E[0, 0]]])
        k13, k23 = k23, k13
    return types.SimpleNamespace(A=A, B=B, D=D, E=E, h=p.h, scf_k13=k13, scf_k23=k23)

def case_rotate90(c):
    rng = c.rng
    s, props, mode, D, al, ao, route, B, sc = base(c)
    q = int(rng.integers(1, 4))
    co, si = [(1, 0), (0, 1), (-1, 0), (0, -1)][q]
    t = rotated(s, co, si, np.zeros(2))
    T = T5(s.n, co, si)
    new = {id(p): rot_prop(p, q) for p in props}
    Dr = (T @ D.ravel()).reshape(-1, 5)
    R = run(c, t, [new[id(p)] for p in props], mode, Dr, al, ao, route)
    for nm in B:
        c.close(T.T @ R[nm] @ T, B[nm], '%s is unchanged when mesh and laminate turn by 90 degrees' % nm, tol=1e-7, scale=np.maximum(sc[nm], np.abs(T.T) @ sc[nm] @ np.abs(T)), quarter_turns=q)
    c.sig(s.key(), 'rotate90', q)
    c.note(mesh=s.describe(), mode=mode, quarter_turns=q)

def case_mirror(c):
    """(x, y) -> (-x, y) or (x, -y): mirrored mesh and mirrored laminate."""
    rng = c.rng
    s, props, mode, D, al, ao, route, B, sc = base(c)
    ax = int(rng.integers(2))
    t = s.copy(); t.pts = s.pts.copy(); t.pts[:, ax] *= -1
    P = np.diag([1, 1, -1.])
    def mir(p):
        E = np.array(p.E)*np.array([[1, -1], [-1, 1.]])
        return types.SimpleNamespace(A=P @ p.A @ P, B=P @ p.B @ P, D=P @ p.D @ P, E=E, h=p.h, scf_k13=p.scf_k13, scf_k23=p.scf_k23)
    new = {id(p): mir(p) for p in props}
    sg = np.ones(5); sg[ax] = -1; sg[3+ax] = -1
    sgn = np.tile(sg, s.n)
    R = run(c, t, [new[id(p)] for p in props], mode, D*sg, al, ao, route)
    for nm in B:
        if nm == METH[1]:
            continue    # anchored at the first corner of the counter-clockwise triangle, which mirroring changes
        c.close(R[nm]*np.outer(sgn, sgn), B[nm], '%s is unchanged when mesh and laminate are mirrored' % nm, tol=1e-7, scale=sc[nm], axis='xy'[ax])
    c.sig(s.key(), 'mirror', ax)
    c.note(mesh=s.describe(), mode=mode, axis='xy'[ax])

def case_scale(c):
    rng = c.rng
    s, props, mode, D, al, ao, route, B, sc = base(c, scale=1.)
    f = float(rng.choice([2., .5, 1e-3, 1e3, 10**rng.uniform(-6, 5)]))
    t = s.copy()
    t.pts = s.pts*f
    new = {id(p): types.SimpleNamespace(A=p.A, B=p.B, D=p.D, E=p.E, h=p.h*f, scf_k13=p.scf_k13, scf_k23=p.scf_k23) for p in props}
    R = run(c, t, [new[id(p)] for p in props], mode, D, al, ao, route)
    n = s.n
    uv = np.tile([1, 1, 0, 0, 0], n).astype(bool)
    c.close(R['k0'][np.ix_(uv, uv)], B['k0'][np.ix_(uv, uv)], 'membrane part is unchanged under scaling', tol=1e-7, scale=sc['k0'][np.ix_(uv, uv)], factor=f)
    c.close(R['k0'], B['k0'], 'k0 entries (gradient-gradient) do not depend on the length unit', tol=1e-7, scale=sc['k0'], factor=f)
    w = np.tile([1, 1, 1, f, f], n)
    W = np.outer(w, w)
    for nm in CELLS:
        c.close(R[nm], B[nm]*W, '%s follows the dimensional rule' % nm, tol=1e-7, scale=sc[nm]*W, factor=f)
    # displacement gradients scale with 1/f
    c.close(R['kG'], B['kG']/f, 'kG of the same displacements scales with 1/length', tol=1e-7, scale=sc['kG']/f, factor=f)
    c.sig(s.key(), 'scale', f)
    c.note(mesh=s.describe(), mode=mode, factor=f)
