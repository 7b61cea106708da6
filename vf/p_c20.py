"""C20: buckling loads against theory and invariances."""
import numpy as np
import scipy.linalg
from . import gen, ref, ritz
from .common import *
from .p_c19 import connected, solve, lam, METHS
RULE = ('static solve, geometric stiffness and eigenvalues on rectangular plates against a Ritz solution, and on random supported meshes before and after '
        'renumbering, quarter turns, stiffness and load scaling; distinct by mesh, laminate, load and relation')
KINDS = [('theory', 3), ('classical', 1), ('numbering', 3), ('turn', 3), ('scaling', 3), ('notebook', .1)]
NEED_EVENTS = ['calc_k0', 'add_k0s', 'calc_kG']
MIN_CASES = 50
ASSUMPTIONS = ['the edge-based method is excluded (known finding F-EDGE-B1 of C12)',
               'theory: alpha = 0.08, 12 x 12 to 14 x 14 regular meshes, h/b 1/500 to 1/10; the reference carries the documented shear correction; '
               'allowance grows with the wave number of the buckling mode (resolution), shorter waves than the meshes resolve are only bounded below']

def factors(K, G, fixed):
    """All eigenvalues mu = 1/load factor of (K + lambda*G) on the free dofs."""
    fr = ~fixed
    B, A = K[np.ix_(fr, fr)], -G[np.ix_(fr, fr)]
    d = 1/np.sqrt(np.diag(B))
    B = B*np.outer(d, d); A = A*np.outer(d, d)
    return np.sort(scipy.linalg.eigh(.5*(A+A.T), .5*(B+B.T), eigvals_only=True))

def stiff(p, method, alpha, area=False):
    a = api()
    K = a.calc_k0(p.mesh, p.mode)
    a.add_k0s(K, p.mesh, p.mode, method=method, alpha=alpha, maxl_from_area=area)
    return K

def plate(c, iso, sizes=(12, 15)):
    rng = c.rng
    a = float(rng.choice([1., 3., .05])); b = a*float(rng.choice([1., .6, 1.7, rng.uniform(.6, 1.7)]))
    h = min(a, b)*float(rng.choice([2e-3, 1e-2, .05, .1]))
    q = gen.laminate(rng, h, iso=iso, ortho_angles=True, nplies=1, scf=5/6.)
    n = int(rng.integers(*sizes))
    pat = str(rng.choice(['left', 'right', 'alt']))
    pts, tris = gen.grid(rng, n, n, a, b, pattern=pat)
    p = Problem(c, spec=gen.Spec(pts, tris, base='grid'), prop=q, route='delaunay')
    return p, q, a, b, h, n, pat

def edge_loads(p, a, b, N):
    """Consistent nodal loads of the boundary tractions of the uniform state N = (Nx, Ny, Nxy)."""
    F = np.zeros((p.n, 5))
    x, y = p.spec.pts[:, 0], p.spec.pts[:, 1]
    e = 1e-9*a
    for sel, (nx, ny), s in ((x < e, (-1, 0), y), (x > a-e, (1, 0), y), (y < e, (0, -1), x), (y > b-e, (0, 1), x)):
        i = np.where(sel)[0]
        i = i[np.argsort(s[i])]
        w = np.zeros(len(i)); d = np.diff(s[i]); w[:-1] += d/2; w[1:] += d/2
        F[i, 0] += w*(N[0]*nx + N[2]*ny)
        F[i, 1] += w*(N[2]*nx + N[1]*ny)
    return F

def supports(p, a, b, kind):
    x, y = p.spec.pts[:, 0], p.spec.pts[:, 1]
    e = 1e-9*a
    F = ritz.bc(kind, free_inplane=True)
    fx = np.zeros((p.n, 5))
    for i, sel in enumerate((x < e, x > a-e, y < e, y > b-e)):
        for k, nm in enumerate(('u', 'v', 'w', 'px', 'py')):
            if F[nm][i]:
                fx[sel, k] = 1
    o = int(np.argmin(x + y)); r = int(np.argmin(-x + y))
    fx[o, 0] = fx[o, 1] = fx[r, 1] = 1      # statically determinate in the plane
    return fx

LOADS = [(-1, 0, 0), (0, -1, 0), (-1, -1, 0), (-1, -.5, 0), (-.3, -1, 0), (-1, .4, 0), (.5, -1, 0), (0, 0, 1), (-1, 0, .5), (0, -1, -.7)]

def run(c, p, q, a, b, N, method, kind):
    K = stiff(p, method, .08)
    fx = supports(p, a, b, kind)
    f = p.vec(edge_loads(p, a, b, N))
    fixed = p.vec(fx) > 0
    d = solve(K, f, fixed)
    # the static state is the uniform one
    G = api().calc_kG(d, p.mesh, p.mode)
    mu = factors(K, G, fixed)
    return 1/mu[-1], d, mu

def case_theory(c):
    rng = c.rng
    iso = rng.random() < .4
    p, q, a, b, h, n, pat = plate(c, iso)
    N = np.array(LOADS[int(rng.integers(len(LOADS)))], float)
    method = str(rng.choice(METHS))
    kind = 'ssss' if rng.random() < .7 else str(rng.choice(['cccc', 'cscs', 'sscc']))
    got, d, mu = run(c, p, q, a, b, N, method, kind)
    l = np.hypot(a/n, b/n)
    G = np.array([q.scf_k13*q.E[1, 1], q.scf_k23*q.E[0, 0]])
    F = ritz.bc(kind)
    Z = np.zeros((3, 3))
    A, D = np.array(q.A), np.array(q.D)
    w0 = ritz.buckling(ritz.plate(A, Z, D, G, a, b, F, n=8), *N)[0][0]
    w1, wave = ritz.buckling(ritz.plate(A, Z, D, G/(1 + .08*l**2/h**2), a, b, F, n=8), *N)
    w1 = w1[0]; res = wave*l**2
    info = dict(ratio=float(got/w0), ratio_with_corrected_shear=float(got/w1), load=N.tolist(), supports=kind, h_over_a=h/a, aspect=b/a, method=method, pattern=pat, n=n, isotropic=iso)
    # short waves are not resolved by these meshes: judged up to a resolution of 0.7
    if res < .7:
        up = (1.07 if kind == 'ssss' else 1.1) + (.13 if method == 'cell-based' else .3)*res + (.5 if N[2] else 0.)
        c.ok(.96 < got/w1 < up, 'buckling load follows first-order shear-deformation theory', resolution=res, allowed=up, **info)
        c.stats['theory judged' + (' with in-plane shear' if N[2] else '')] += 1
    c.ok(got > 0 and got/w1 > .96, 'buckling load is not below the theory', resolution=res, **info)
    if iso and kind == 'ssss' and res < .7 and not N[2]:
        c.ok(.9 < got/w0 < (1.15 if method == 'cell-based' else 1.25), 'isotropic simply supported plates buckle at the theoretical load', **info)
    c.stats['tightest: above 0.7 of the allowance'] += res < .7 and got/w1 - 1 > .7*(up - 1)
    describe(c, p, load=N.tolist(), supports=kind, method=method, h=h)

def case_classical(c):
    """Thin isotropic simply supported plates: k*pi^2*D/b^2."""
    rng = c.rng
    p, q, a, b, h, n, pat = plate(c, True)
    if h/min(a, b) > .02:
        return
    method = str(rng.choice(METHS))
    D = q.D[0, 0]
    along = int(rng.integers(2))
    N = np.array([(-1, 0, 0), (0, -1, 0)][along], float)
    r = a/b if along == 0 else b/a      # length over width
    w = b if along == 0 else a
    want = min((m/r + r/m)**2 for m in range(1, 6))*np.pi**2*D/w**2
    got, d, mu = run(c, p, q, a, b, N, method, 'ssss')
    c.ok(.9 < got/want < (1.15 if method == 'cell-based' else 1.25), 'classical buckling load of a thin simply supported plate', ratio=float(got/want), along='xy'[along], length_over_width=r, method=method, pattern=pat, n=n)
    describe(c, p, along=along, method=method, h=h)

# ----------------------------------------------------------------- invariances
def setup(c, **kw):
    rng = c.rng
    while True:
        s, b, inner = connected(rng, unused=0, **kw)
        if 4 <= s.n <= 30:
            break
    q = lam(rng, s.size())
    return s, q

def bcs(rng, s):
    sup = rng.choice(s.used(), int(rng.integers(2, max(3, len(s.used())//2))), replace=False)
    fx = np.zeros((s.n, 5)); fx[sup] = 1
    F = rng.normal(size=(s.n, 5))*np.array([1, 1, .1, .1*s.size(), .1*s.size()])
    return fx, F

def eig(p, fx, F, method, alpha):
    K = stiff(p, method, alpha)
    fx = np.array(fx); fx[[i for i in range(p.n) if i not in set(p.spec.used())]] = 1
    fixed = p.vec(fx) > 0
    d = solve(K, p.vec(F), fixed)
    return factors(K, api().calc_kG(d, p.mesh, p.mode), fixed), d

def near(c, got, want, what, tol=1e-5, **kw):
    top = np.abs(want).max()
    if got.shape != want.shape:
        return c.ok(False, what, why='shape')
    i = int(np.argmax(np.abs(got-want)))
    return c.ok(top > 0 and np.abs(got-want).max() <= tol*top, what, got=float(got[i]), expected=float(want[i]), biggest=float(top), **kw)

def case_numbering(c):
    rng = c.rng
    s, q = setup(c)
    fx, F = bcs(rng, s)
    method, al = str(rng.choice(METHS)), gen.alpha_of(rng)
    p = Problem(c, spec=s, prop=q)
    m1, d1 = eig(p, fx, F, method, al)
    perm = rng.permutation(s.n); inv = np.argsort(perm)
    pe = rng.permutation(len(s.tris))
    t = s.copy(pts=s.pts[perm], tris=inv[s.tris][pe], nids=gen.ids(rng, str(rng.choice(['seq', 'sparse', 'reversed'])), s.n), eids=gen.ids(rng, 'shuffle', len(pe)))
    if method == 'cell-based':
        t.tris = np.array([np.roll(x[::int(rng.choice([-1, 1]))], rng.integers(3)) for x in t.tris])
    p2 = Problem(c, spec=t, prop=q)
    m2, d2 = eig(p2, fx[perm], F[perm], method, al)
    near(c, m2, m1, 'critical factors do not depend on the numbering', method=method)
    describe(c, p, relation='numbering', method=method, alpha=al)

def turned(q):
    """The laminate seen from axes turned by 90 degrees: 1<->2, shear terms change sign."""
    import types
    P = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1.]])
    r = types.SimpleNamespace(A=P @ q.A @ P.T, B=P @ q.B @ P.T, D=P @ q.D @ P.T, E=np.array([[q.E[1, 1], -q.E[0, 1]], [-q.E[0, 1], q.E[0, 0]]]),
                              h=q.h, scf_k13=q.scf_k23, scf_k23=q.scf_k13)
    return r

def case_turn(c):
    """(x, y) -> (-y, x): the same plate with the load along the other axis."""
    rng = c.rng
    s, q = setup(c)
    fx, F = bcs(rng, s)
    if rng.random() < .5:       # in-plane load along one axis only, some edges loaded
        F[:, 1:] = 0
    method, al = str(rng.choice(METHS)), gen.alpha_of(rng)
    p = Problem(c, spec=s, prop=q)
    m1, d1 = eig(p, fx, F, method, al)
    t = s.copy(); t.pts = np.c_[-s.pts[:, 1], s.pts[:, 0], s.pts[:, 2]]
    turn = lambda V, sg: np.c_[sg*V[:, 1], V[:, 0], V[:, 2], sg*V[:, 4], V[:, 3]]
    p2 = Problem(c, spec=t, prop=turned(q), mode=p.mode)
    m2, d2 = eig(p2, turn(fx, 1), turn(F, -1), method, al)
    near(c, m2, m1, 'critical factors are the same when the problem is turned to the other axis', method=method)
    U1, U2 = d1[p.dofs()].reshape(-1, 5), d2[p2.dofs()].reshape(-1, 5)
    W = turn(U1, -1)
    c.ok((np.abs(U2 - W).max(axis=0) <= 1e-5*np.maximum(np.abs(W).max(axis=0), 1e-3*np.array([1, 1, 1, 1/s.size(), 1/s.size()])*np.abs(W).max())).all(),
         'static solutions turn with the problem', method=method)
    describe(c, p, relation='turn', method=method, alpha=al)

def case_scaling(c):
    rng = c.rng
    s, q = setup(c)
    fx, F = bcs(rng, s)
    method, al = str(rng.choice(METHS)), gen.alpha_of(rng)
    p = Problem(c, spec=s, prop=q)
    m1, d1 = eig(p, fx, F, method, al)
    t = float(rng.choice([2., .1, 1e4, -1.]))
    m2, d2 = eig(p, fx, t*F, method, al)
    near(c, np.sort(m2/t), m1, 'critical factors scale inversely with the load', factor=t)
    f = float(rng.choice([2., 1e-3, 37.]))
    gen.assign_uniform(s, p.nodes, p.trias, gen.prop_scale(q, f))
    m3, d3 = eig(p, fx, F, method, al)
    near(c, m3*f, m1, 'critical factors are proportional to the stiffness', factor=f)
    gen.assign_uniform(s, p.nodes, p.trias, q)
    # geometry and thickness scaled together: membrane forces per length as load
    describe(c, p, relation='scaling', method=method, alpha=al, t=t, f=f)

# recorded outputs of notebooks/example_buckling_composite_plate.ipynb
NOTEBOOK_U = 7.57008404993e-10
NOTEBOOK_N = np.array([10567.74, 21557.45, 37303.0, 37893.0, 47849.0])*1e3

def case_notebook(c):
    """The documented composite-plate example, renumbered, against its recorded results."""
    from scipy.spatial import Delaunay
    from composites.laminate import read_stack
    rng = c.rng
    a = .5
    x = np.linspace(0, a, 19)
    pts = np.array(np.meshgrid(x, x)).T.reshape(-1, 2)
    tris = Delaunay(pts).simplices
    perm = rng.permutation(len(pts)); inv = np.argsort(perm)
    s = gen.Spec(pts[perm], inv[tris][rng.permutation(len(tris))], base='notebook')
    ang = [-45, 45, 0, 45, -45, 0]*4 + [0, -45, 45, 0, 45, -45]*4
    q = read_stack(ang, plyts=[1.714e-3 if t == 0 else .143e-3 for t in ang], laminaprop=(49.627e9, 15.43e9, .38, 4.8e9, 4.8e9, 4.8e9))
    q.scf_k13 = q.scf_k23 = 5/6.
    p = Problem(c, spec=s, prop=q, mode=bool(rng.integers(2)), route=str(rng.choice(['delaunay', 'deck'])))
    X, Y = s.pts[:, 0], s.pts[:, 1]
    e = 1e-9
    w, ea, n, so = X < e, X > a-e, Y > a-e, Y < e
    fx = np.zeros((p.n, 5))
    fx[w, 0] = fx[so, 1] = 1
    fx[w | ea | n | so, 2] = 1
    F = np.zeros((p.n, 5))
    F[ea, 0] = -1/18.; F[ea & (n | so), 0] = -.5/18
    K = stiff(p, 'cell-based', .08)
    fixed = p.vec(fx) > 0
    d = solve(K, p.vec(F), fixed)
    u = np.sqrt(d[0::5]**2 + d[1::5]**2).max()
    c.ok(abs(u/NOTEBOOK_U - 1) < 1e-6, 'the documented example gives its recorded displacement', got=float(u), recorded=NOTEBOOK_U)
    mu = factors(K, api().calc_kG(d, p.mesh, p.mode), fixed)
    got = 1/mu[-5:][::-1]/a
    c.ok((np.abs(got/NOTEBOOK_N - 1) < 5e-3).all(), 'the documented example gives its recorded buckling loads', got=got, recorded=NOTEBOOK_N)
    describe(c, p, relation='notebook')
