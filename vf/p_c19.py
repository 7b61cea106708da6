"""C19: patch test, equilibrium, reciprocity, rigid motions and convergence of static solutions."""
import numpy as np
from . import gen, ref, ritz
from .common import *
RULE = ('static solutions of k0 + k0s: linear fields prescribed on the topological boundary of random meshes, random loads on supported random meshes, '
        'eigenvalues of the whole matrix, and rectangular plates under pressure against a Ritz solution of first-order shear-deformation theory; '
        'distinct by mesh, laminate, method and load')
KINDS = [('patch', 4), ('equilibrium', 4), ('nullspace', 3), ('theory', 1.2), ('cantilever', 1)]
NEED_EVENTS = ['calc_k0', 'add_k0s']
MIN_CASES = 60
METHS = gen.METHODS[:2]
ASSUMPTIONS = ['the edge-based method is excluded (known finding F-EDGE-B1 of C12)',
               'theory: alpha = 0.08, regular 12 x 12 to 14 x 14 meshes, h/L from 1/1000 to 1/5, aspect ratios 0.6 to 1.7; tolerance 7% (isotropic) and -7%/+3% against the theory with the corrected shear stiffness for the smoothed method (seen: -3.8% to -1%), 14% and -16%/+8% without smoothing (seen: -10.5% to +3.7%)']

def connected(rng, need_interior=False, **kw):
    """A mesh whose triangles hang together by edges (others dropped, their nodes left unused)."""
    while True:
        s = gen.mesh(rng, multi=False, **kw)
        e = s.edges()
        adj = {}
        for ts in e.values():
            if len(ts) == 2:
                adj.setdefault(ts[0], []).append(ts[1]); adj.setdefault(ts[1], []).append(ts[0])
        todo, best = set(range(len(s.tris))), []
        while todo:
            st, comp = [todo.pop()], []
            while st:
                t = st.pop(); comp.append(t)
                for q in adj.get(t, ()):
                    if q in todo:
                        todo.discard(q); st.append(q)
            if len(comp) > len(best):
                best = comp
        if len(best) < 2:
            continue
        best = sorted(best)
        s.tris = s.tris[best]
        s.eids = [s.eids[i] for i in best]
        b = {n for k, ts in s.edges().items() if len(ts) == 1 for n in k}
        inner = [n for n in s.used() if n not in b]
        if need_interior and not inner:
            continue
        return s, sorted(b), inner

def solve(K, f, fixed, ug=None):
    """Dense solution with prescribed values, equilibrated, one refinement step."""
    u = np.zeros(len(f)) if ug is None else np.where(fixed, ug, 0.)
    fr = ~fixed
    A = K[np.ix_(fr, fr)]
    b = (f - K @ u)[fr]
    d = 1/np.sqrt(np.diag(A))
    As = A*np.outer(d, d)
    import scipy.linalg
    try:
        lu = scipy.linalg.lu_factor(As)
    except Exception:
        return None
    x = d*scipy.linalg.lu_solve(lu, d*b)
    for _ in range(2):
        x = x + d*scipy.linalg.lu_solve(lu, d*(b - A @ x))
    u[fr] = x
    return u

def lam(rng, L):
    """A uniform laminate, thin to thick relative to the mesh."""
    h = L*float(rng.choice([3e-3, 1e-2, .03, .1, .3]))*rng.uniform(.5, 1.5)
    E = float(rng.choice([7e10, 1., 2e5]))
    return gen.synth(rng, h, E) if rng.random() < .4 else gen.laminate(rng, h, E)

def matrix(c, p, method, alpha):
    a = api()
    K = a.calc_k0(p.mesh, p.mode)
    a.add_k0s(K, p.mesh, p.mode, method=method, alpha=alpha)
    return K

def case_patch(c):
    rng = c.rng
    s, b, inner = connected(rng, True, kind=str(rng.choice(['grid', 'delaunay', 'fan', 'disk', 'holes', 'grid'])))
    q = lam(rng, s.size())
    p = Problem(c, spec=s, prop=q)
    method, al = str(rng.choice(METHS)), gen.alpha_of(rng)
    K = matrix(c, p, method, al)
    L = s.size()
    xy = p.xy(); x, y = xy[:, 0]/L, xy[:, 1]/L
    g = rng.normal(size=(3, 3))
    if rng.random() < .3:
        g[2] = 0.
    # linear in-plane field, and a plate tilted rigidly
    U = np.zeros((p.n, 5))
    U[:, 0] = g[0, 0] + g[0, 1]*x + g[0, 2]*y
    U[:, 1] = g[1, 0] + g[1, 1]*x + g[1, 2]*y
    U[:, 2] = g[2, 0] + g[2, 1]*x + g[2, 2]*y
    U[:, 3] = -g[2, 1]/L
    U[:, 4] = -g[2, 2]/L
    want = p.vec(U)
    fx = np.ones((p.n, 5)); fx[inner] = 0
    fixed = p.vec(fx) > 0
    u = solve(K, np.zeros(5*p.n), fixed, want)
    if not c.ok(u is not None and np.all(np.isfinite(u)), 'patch: solvable'):
        return
    sc = np.array([np.abs(g[:2]).max()]*2 + [max(np.abs(g[2]).max(), np.abs(g[:2]).max()*.01)] + [max(np.abs(g[2]).max(), np.abs(g[:2]).max()*.01)/L]*2)
    err = np.abs(u - want).reshape(-1, 5).max(axis=0)/sc
    c.ok((err < 1e-6).all(), 'patch test: the linear field is reproduced at the interior nodes', error_by_dof=err, method=method, alpha=al, interior=len(inner))
    # the interior nodes are in equilibrium for that field
    r = K @ want
    m = np.abs(K) @ np.abs(want)
    free = ~fixed
    c.ok((np.abs(r[free]) <= 1e-8*m[free] + 1e-12*m.max()).all(), 'patch test: no residual forces at interior nodes', worst=float((np.abs(r[free])/np.maximum(m[free], 1e-300)).max()))
    c.stats['interior nodes judged'] += len(inner)
    describe(c, p, method=method, alpha=al)

def rigid(p):
    L = p.spec.size()
    xy = p.xy(); x, y = xy[:, 0]/L, xy[:, 1]/L
    z, o = np.zeros(p.n), np.ones(p.n)
    U = [(o, z, z, z, z), (z, o, z, z, z), (-y, x, z, z, z), (z, z, o, z, z), (z, z, x, -o/L, z), (z, z, y, z, -o/L)]
    return [p.vec(np.array(u).T) for u in U]

def case_equilibrium(c):
    rng = c.rng
    s, b, inner = connected(rng)
    used = s.used()
    p = Problem(c, spec=s, uniform=rng.random() < .4)
    method, al = str(rng.choice(METHS)), gen.alpha_of(rng)
    K = matrix(c, p, method, al)
    sup = rng.choice(used, int(rng.integers(2, max(3, len(used)//2))), replace=False)
    fx = np.ones((p.n, 5)); fx[used] = 0; fx[sup] = 1
    fixed = p.vec(fx) > 0
    free = [n for n in used if n not in set(sup.tolist())]
    if not free:
        return
    us, fs = [], []
    n1 = int(rng.integers(1, len(free)+1))
    for k in range(2):
        F = np.zeros((p.n, 5))
        F[rng.choice(free, n1, replace=False)] = rng.normal(size=(n1, 5))*np.array([1, 1, 1, s.size(), s.size()])
        f = p.vec(F)
        u = solve(K, f, fixed)
        if not c.ok(u is not None and np.all(np.isfinite(u)), 'a supported plate has a static solution'):
            return
        us.append(u); fs.append(f)
        r = K @ u - f
        r[~fixed] = 0
        mag = np.abs(K) @ np.abs(u) + np.abs(f)
        for v, nm in zip(rigid(p), ('Fx', 'Fy', 'Mz', 'Fz', 'My', 'Mx')):
            tot = v @ (f + r)
            c.ok(abs(tot) <= 1e-8*(np.abs(v) @ mag), 'reactions balance the applied loads', component=nm, total=float(tot), magnitude=float(np.abs(v) @ mag))
        c.ok(f @ u > 0, 'loads do positive work', work=float(f @ u))
    w11, w22 = fs[0] @ us[0], fs[1] @ us[1]
    c.ok(abs(fs[0] @ us[1] - fs[1] @ us[0]) <= 1e-6*np.sqrt(abs(w11*w22)), 'work is reciprocal', w12=float(fs[0] @ us[1]), w21=float(fs[1] @ us[0]), w11=float(w11), w22=float(w22))
    describe(c, p, method=method, alpha=al, supports=len(sup))

def case_nullspace(c):
    rng = c.rng
    s, b, inner = connected(rng)
    if s.n > 60:
        return
    q = lam(rng, s.size())
    p = Problem(c, spec=s, prop=q)
    al = gen.alpha_of(rng)
    K = matrix(c, p, 'cell-based', al)
    used = s.used()
    iu = np.zeros((p.n, 5)); iu[used] = 1
    on = p.vec(iu) > 0
    c.ok(not K[~on].any() and not K[:, ~on].any(), 'unused nodes carry no stiffness')
    R = np.array([v[on] for v in rigid(p)]).T
    A = K[np.ix_(on, on)]
    f = np.abs(A @ R)
    c.ok((f <= 1e-8*(np.abs(A) @ np.abs(R)) + 1e-12*(np.abs(A) @ np.abs(R)).max(axis=0)).all(), 'rigid motions store no energy')
    d = 1/np.sqrt(np.diag(A))
    As = A*np.outer(d, d)
    w = np.linalg.eigvalsh(.5*(As+As.T))
    # the rest of the space is judged against the reference matrix's own softest mode
    sn = p.snap()
    Kr = ref.k0(sn, p.mode) + ref.shear(sn, p.mode, 'cell-based', al, False)
    Ar = Kr[np.ix_(on, on)]
    dr = 1/np.sqrt(np.diag(Ar))
    wr = np.linalg.eigvalsh(.5*(Ar+Ar.T)*np.outer(dr, dr))
    c.stats['modes judged'] += len(w)
    c.ok(np.all(np.abs(w[:6]) <= 1e-10*w[-1]), 'six rigid motions', lowest=w[:7])
    lo = float(wr[6]/wr[-1])
    c.stats['softest elastic mode > 1e-9'] += lo > 1e-9
    if lo > 1e-10:
        c.ok(w[6] >= .5*wr[6], 'no other zero-energy motion', lowest=w[:8], expected=float(wr[6]))
    describe(c, p, alpha=al)

def rect(c, n, ny, a, b, q, pattern, mode=False):
    pts, tris = gen.grid(c.rng, n, ny, a, b, pattern=pattern)
    s = gen.Spec(pts, tris, base='grid')
    p = Problem(c, spec=s, prop=q, route='delaunay')
    return p

def case_theory(c):
    """Rectangular plate under uniform pressure against the continuum solution."""
    rng = c.rng
    a = float(rng.choice([1., 2., .05])); b = a*float(rng.choice([1., .6, 1.7, rng.uniform(.6, 1.7)]))
    h = min(a, b)*float(rng.choice([1e-3, 1e-2, .05, .1, .2]))
    iso = rng.random() < .5
    q = gen.laminate(rng, h, iso=iso, ortho_angles=True, nplies=None if iso else 1 + 2*int(rng.integers(2)), scf=5/6.)
    q.B = q.B*0. if abs(q.B).max() <= 1e-9*np.sqrt(abs(q.A).max()*abs(q.D).max()) else q.B
    kind = str(rng.choice(['ssss', 'cccc', 'cscs', 'sscc', 'cssc']))
    n = int(rng.integers(12, 15))
    pat = str(rng.choice(['left', 'right', 'alt']))
    method = str(rng.choice(METHS))
    p = rect(c, n, n, a, b, q, pat)
    K = matrix(c, p, method, .08)
    x, y = p.spec.pts[:, 0], p.spec.pts[:, 1]
    F = ritz.bc(kind)
    fx = np.zeros((p.n, 5))
    e = 1e-9*a
    for i, sel in enumerate((x < e, x > a-e, y < e, y > b-e)):
        for k, nm in enumerate(('u', 'v', 'w', 'px', 'py')):
            if F[nm][i]:
                fx[sel, k] = 1
    f = np.zeros((p.n, 5))
    np.add.at(f[:, 2], p.spec.tris.ravel(), np.repeat(np.abs(p.spec.areas())/3, 3))
    u = solve(K, p.vec(f), p.vec(fx) > 0)
    got = p.vec(f) @ u
    G = (q.scf_k13*q.E[1, 1], q.scf_k23*q.E[0, 0])
    P = ritz.plate(q.A, q.B, q.D, G, a, b, F, n=8)
    # the load of the reference is the unit pressure
    fr = P['load']
    want = fr @ ritz.solve(P, fr)
    # the documented correction divides the shear stiffness by 1 + alpha*l^2/h^2: strongly orthotropic
    # plates approach the theory from that side
    l = np.hypot(a/n, b/n)
    P = ritz.plate(q.A, q.B, q.D, tuple(g/(1 + .08*l**2/h**2) for g in G), a, b, F, n=8)
    soft = fr @ ritz.solve(P, fr)
    info = dict(ratio=float(got/want), ratio_with_corrected_shear=float(got/soft), supports=kind, h_over_b=h/min(a, b), aspect=b/a, method=method, pattern=pat, n=n, isotropic=iso)
    # without smoothing the plate is stiffer on these meshes (tails of 1260 cases: -10.5% and -3.8%)
    tol, lo, hi = (.07, .93, 1.03) if method == METHS[0] else (.14, .84, 1.08)
    if iso:
        c.ok(abs(got/want - 1) < tol, 'deflection under pressure follows first-order shear-deformation theory', **info)
    c.ok(lo < got/soft < hi, 'deflection under pressure follows first-order shear-deformation theory with the corrected shear stiffness', **info)

    c.stats['theory ratios within 5%'] += abs(got/want - 1) < .05
    describe(c, p, supports=kind, h=h, method=method, aspect=b/a)

def case_cantilever(c):
    """Strips in cylindrical bending, membrane tension and shear: closed forms along x or y."""
    rng = c.rng
    along = int(rng.integers(2))
    L = float(rng.choice([1., 7.])); W = L*rng.uniform(.3, 1.)
    h = L*float(rng.choice([.01, .05, .2]))
    q = gen.laminate(rng, h, iso=True, scf=5/6.)
    A, D = np.array(q.A), np.array(q.D)
    n = int(rng.integers(10, 16)); m = max(2, int(n*W/L))
    pat = str(rng.choice(['left', 'right', 'alt']))
    p = rect(c, *((n, m, L, W) if along == 0 else (m, n, W, L)), q, pat)
    method = str(rng.choice(METHS))
    K = matrix(c, p, method, .08)
    X = p.spec.pts[:, along]; Y = p.spec.pts[:, 1-along]
    e = 1e-9*L
    # 1. uniform tension, transverse contraction prevented: u = N x / A11
    iu, iv, ip, it = (0, 1, 3, 4) if along == 0 else (1, 0, 4, 3)
    fx = np.zeros((p.n, 5)); fx[:, iv] = 1; fx[:, 2:] = 1; fx[X < e, iu] = 1
    f = np.zeros((p.n, 5))
    edge = np.where(X > L-e)[0]
    edge = edge[np.argsort(Y[edge])]
    wt = np.zeros(len(edge)); dl = np.diff(Y[edge]); wt[:-1] += dl/2; wt[1:] += dl/2
    f[edge, iu] = wt
    u = solve(K, p.vec(f), p.vec(fx) > 0)
    U = u[p.dofs()].reshape(-1, 5)
    c.ok(np.abs(U[:, iu] - X/A[0, 0]).max() < 1e-6*L/A[0, 0], 'uniform tension is exact', got=float(U[:, iu].max()), expected=float(L/A[0, 0]))
    # 2. cylindrical bending under tip shear: w = F(x^2 L/2 - x^3/6)/D11 + F x/(k G h)
    fx = np.zeros((p.n, 5)); fx[:, :2] = 1; fx[:, it] = 1; fx[X < e] = 1
    f = np.zeros((p.n, 5)); f[edge, 2] = wt
    u = solve(K, p.vec(f), p.vec(fx) > 0)
    w = u[p.dofs()].reshape(-1, 5)[edge, 2].mean()
    G = q.scf_k13*q.E[1, 1]
    want = L**3/(3*D[0, 0]) + L/G
    c.ok(abs(w/want - 1) < .02, 'cylindrical bending of a cantilever strip', ratio=float(w/want), along='xy'[along], h_over_L=h/L, n=n, method=method, pattern=pat)
    describe(c, p, along=along, method=method, h=h, n=n)
