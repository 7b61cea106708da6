"""C30: scale extremes, finiteness, floating-point exceptions, relative accuracy."""
import numpy as np
from . import gen, ref
from .common import *
RULE = ('random and strongly graded meshes (elements up to ten orders of magnitude apart in one mesh) from micrometres to kilometres, offset by up to a thousand times their size, thin to thick laminates of any stiffness, '
        'one triangle to thousands of nodes; IEEE invalid/divide/overflow flags are trapped around every library call, every returned number must be finite, and '
        'every matrix is compared with the reference evaluated on exact local coordinates; distinct by mesh, scale, offset, thickness and options')
KINDS = [('scale', 4), ('offset', 3), ('graded', 2), ('pole', 1), ('thin_thick', 2), ('slivers', 1.5), ('single', 1), ('hundreds', .15), ('many', .05), ('random_state', 1)]
NEED_EVENTS = ['calc_k0', 'add_k0s', 'calc_kG']
MIN_CASES = 60
EPS = 2.2e-16

def exact(rng, spec, bits=20):
    """Round the coordinates to multiples of a power of two, so that offsets add exactly."""
    L = spec.size()
    u = 2.**(np.floor(np.log2(L)) - bits)
    spec.pts = np.round(spec.pts/u)*u
    return u

def clean(c, ev):
    c.ok(not ev.fp, 'no invalid, division or overflow flag', call=ev.name, flags=sorted(set(ev.fp)))
    if ev.exc is None and isinstance(ev.ret, np.ndarray):
        c.ok(bool(np.all(np.isfinite(ev.ret))), 'finite result', call=ev.name)

def run(c, spec, local, off, prop=None, uniform=None, alpha=None, dscale=None, E=None):
    """Analyse spec (= local + off) and compare with the reference on the local coordinates."""
    rng, a = c.rng, api()
    for nm in ('calc_k0', 'add_k0s', 'calc_kG'):
        c.mon.subscribe(nm, post=lambda ev: clean(c, ev))
    c.mon.trap_fp = True
    try:
        p = Problem(c, spec=spec, uniform=uniform, prop=prop, uncoupled=True, route='delaunay')
        k = a.calc_k0(p.mesh, p.mode)
        ks = {}
        al, ao = gen.alpha_of(rng) if alpha is None else alpha, bool(rng.integers(2))
        for m in METH:
            ks[m] = a.add_k0s(np.zeros_like(k), p.mesh, p.mode, method=m, alpha=al, maxl_from_area=ao)
        d = gen.disp(rng, p.n, spec.size()*1e-3 if dscale is None else dscale)
        g = a.calc_kG(d.copy(), p.mesh, p.mode)
        both = a.add_k0s(k.copy(), p.mesh, p.mode, method='cell-based', alpha=al, maxl_from_area=ao)
    finally:
        c.mon.trap_fp = False
    s = p.snap()
    xyz = s.xyz
    s.xyz = np.array([local[list(p.mesh.nodes).index(i)] for i in s.nid])
    s.setup()
    s.order_edges(p.mesh)
    # rounding of coordinates: per triangle eps*X/h^1 in gradients and eps*(X/h)^2 in areas
    X = np.array([np.abs(xyz[list(t)]).max() for t in s.tris])
    ht = np.array([2*A/ref.lmax(s, t) for t, A in enumerate(s.area)])     # heights
    lt = np.array([ref.lmax(s, t) for t in range(len(s.tris))])
    dl = EPS*(X/ht)**2*(1 + lt/ht)
    dn = np.zeros(s.N)
    for t, tr in enumerate(s.tris):
        for n in tr:
            dn[n] = max(dn[n], dl[t])
    # the smoothing domains reach one triangle further
    for (i, j), ts in s.edges.items():
        m = max(dl[t] for t in ts)
        for t in ts:
            for n in s.tris[t]:
                dn[n] = max(dn[n], m)
    dd = np.zeros(5*s.N)
    for n in range(s.N):
        dd[5*int(s.index[n]):5*int(s.index[n])+5] = dn[n]
    D = 1e-8 + 40*np.maximum(dd[:, None], dd[None, :])
    if D.max() > 1e-3:
        c.stats['too coarse coordinates for a comparison'] += 1
        return p
    def sc(R):
        q = np.sqrt(np.abs(np.diag(R)))
        # rows of one dof kind: floor at 1e-9 of the largest of the kind
        for kd in range(5):
            m = q[kd::5].max() if len(q) else 0
            q[kd::5] = np.maximum(q[kd::5], 1e-9*m if m > 0 else 1e-9*q.max())
        return np.outer(q, q)*D
    R = ref.k0(s, p.mode)
    c.close(k, R, 'k0 keeps its accuracy', tol=1, scale=sc(R))
    for m in METH[:2]:
        S = ref.shear(s, p.mode, m, al, ao)
        c.close(ks[m], S, 'k0s keeps its accuracy: ' + m, tol=1, scale=sc(S))
        if m == 'cell-based':
            c.close(both, R+S, 'k0+k0s keeps its accuracy', tol=1, scale=sc(R+S))
    bnd = not any(len(t) == 2 for t in s.edges.values())
    if bnd:
        S = ref.shear(s, p.mode, 'edge-based', al, ao)
        c.close(ks['edge-based'], S, 'k0s keeps its accuracy: edge-based', tol=1, scale=sc(S))
    G, M = ref.kG(s, p.mode, d, parts=True)
    c.close(g, G, 'kG keeps its accuracy', tol=1, scale=np.maximum(M, 1e-7*M.max())*10*D)
    q = [x.prop for x in (p.nodes if p.mode else p.trias)]
    h = [float(x.h) for x in q]
    c.note(mesh=p.spec.describe(), mode=p.mode, size=spec.size(), offset=off, thickness=(min(h), max(h)), alpha=al,
           smallest_height=float(ht.min()), coordinate_rounding=float(dl.max()))
    c.sig(spec.key(), p.mode, al, ao, min(h))
    c.stats['decade of size %d' % int(np.floor(np.log10(spec.size())))] += 1
    c.stats['decade of h/size %d' % int(np.floor(np.log10(min(h)/spec.size())))] += 1
    c.stats['decade of element size ratio %d' % int(np.floor(np.log10(lt.max()/lt.min())))] += 1
    if off:
        c.stats['decade of offset/size %d' % int(np.floor(np.log10(off/spec.size())))] += 1
    c.stats['nodes'] += s.N
    return p

def shifted(rng, spec, rel):
    """local coordinates and the spec moved by rel times the size (exactly)."""
    u = exact(rng, spec)
    local = spec.pts.copy()
    local[:, 2] = 0
    L = spec.size()
    v = np.round(rng.choice([-1, 1], 3)*rng.uniform(.5, 1, 3)*rel*L/u)*u if rel else np.zeros(3)
    if rng.random() < .3:
        v[int(rng.integers(2))] = 0.
    spec.pts = local + v
    return local, float(np.abs(v).max())

def base(rng, scale, **kw):
    kw.setdefault('minq', .03)
    while True:
        s = gen.mesh(rng, scale=1., translate=0., z=0., unused=0, **kw)
        s.pts = s.pts*scale
        t = s.copy()
        exact(rng, t)
        if (gen.quality(t.pts, t.tris)[0] > 1e-3).all():
            s.tags['scale'] = scale
            return s

def anyscale(rng):
    return float(10.**rng.uniform(-6, 4))*float(rng.choice([1., 1., 10.]))

def case_scale(c):
    rng = c.rng
    s = base(rng, anyscale(rng), big=rng.random() < .3)
    local, off = shifted(rng, s, float(rng.choice([0., 0., 1., 5.])))
    run(c, s, local, off)

def case_offset(c):
    rng = c.rng
    s = base(rng, anyscale(rng))
    local, off = shifted(rng, s, float(rng.choice([10., 100., 300., 1000.])))
    run(c, s, local, off)

def case_graded(c):
    rng = c.rng
    n, m = int(rng.integers(3, 8)), int(rng.integers(2, 6))
    ratio = float(10**rng.uniform(1, 3.5))
    x = np.r_[0, np.cumsum(np.geomspace(1, ratio, n))]
    y = np.r_[0, np.cumsum(np.geomspace(1, ratio, m))] if rng.random() < .7 else np.linspace(0, x[-1], m+1)
    pts, t = gen.grid(rng, n, m)
    pts = np.c_[x[np.round(pts[:, 0]*n).astype(int)], y[np.round(pts[:, 1]*m).astype(int)]]
    a = rng.uniform(0, 2*np.pi) if rng.random() < .5 else 0.
    pts = pts @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
    flip = rng.random(len(t)) < .5
    t = np.where(flip[:, None], t[:, ::-1], t)
    s = gen.Spec(pts*anyscale(rng)/x[-1], t, base='graded %.0f' % ratio)
    u = exact(rng, s, 36)
    local = s.pts.copy()
    if not (gen.quality(local, s.tris)[0] > 1e-5).all():
        return case_scale(c)
    run(c, s, local, 0.)

def case_pole(c):
    """Rings around a point, each several times the last: elements of one mesh differ by up to ten orders of magnitude."""
    rng = c.rng
    n, m = int(rng.integers(4, 13)), int(rng.integers(4, 9))
    f = float(10**rng.uniform(.2, min(1., 10./n)))
    quarter = rng.random() < .4
    pts, t, last = [(0., 0.)], [], [0]*(m + 1)
    for i in range(n):
        a = np.linspace(0, np.pi/2 if quarter else 2*np.pi, m + 1) + (0 if quarter else rng.uniform(0, 1))
        r = f**i*rng.uniform(.95, 1.05)
        ring = list(range(len(pts), len(pts) + m + (1 if quarter else 0)))
        pts += [(r*np.cos(x), r*np.sin(x)) for x in a[:len(ring)]]
        ring += [] if quarter else ring[:1]
        for j in range(m):
            if i == 0:
                t.append((0, ring[j], ring[j+1]))
            else:
                t += [(last[j], ring[j], ring[j+1]), (last[j], ring[j+1], last[j+1])]
        last = ring
    pts, t = np.array(pts), np.array(t)
    flip = rng.random(len(t)) < .5
    t = np.where(flip[:, None], t[:, ::-1], t)[rng.permutation(len(t))]
    s = gen.Spec(pts*anyscale(rng)/np.abs(pts).max(), t, base='pole')
    if not (gen.quality(s.pts, s.tris)[0] > 1e-3).all() or not gen.valid(s.pts, s.tris):
        return case_graded(c)
    run(c, s, s.pts.copy(), 0.)

def case_thin_thick(c):
    rng = c.rng
    L = anyscale(rng)
    s = base(rng, L)
    local, off = shifted(rng, s, float(rng.choice([0., 1., 30.])))
    h = s.size()*float(10**rng.uniform(-6, 1))
    E = float(10**rng.uniform(-6, 14))
    r = rng.random()
    q = gen.laminate(rng, h, E, iso=True) if r < .4 else gen.laminate(rng, h, E, ortho_angles=True) if r < .7 else gen.synth(rng, h, E)
    run(c, s, local, off, prop=q, alpha=float(rng.choice([0., .08, .2, 1e3, 1e6])))

def case_slivers(c):
    """Thin but valid triangles."""
    rng = c.rng
    n = int(rng.integers(1, 5))
    asp = float(10**rng.uniform(1, 3))
    pts, t = gen.grid(rng, n, int(rng.integers(1, 4)), 1., 1./asp, jitter=float(rng.choice([0., .2])))
    a = rng.uniform(0, 2*np.pi)
    pts = pts @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
    s = gen.Spec(pts*anyscale(rng), gen.ccw(pts, t) if rng.random() < .5 else gen.ccw(pts, t)[:, ::-1], base='slivers %.0f' % asp)
    exact(rng, s, 36)
    run(c, s, s.pts.copy(), 0.)

def case_single(c):
    rng = c.rng
    s = base(rng, anyscale(rng), kind='tri1', multi=False)
    local, off = shifted(rng, s, float(rng.choice([0., 1., 100., 1000.])))
    run(c, s, local, off)

def case_hundreds(c):
    rng = c.rng
    nx, ny = rng.integers(14, 19, 2)
    pts, t = gen.grid(rng, int(nx), int(ny), *rng.uniform(.5, 3, 2), jitter=.2)
    s = gen.Spec(pts*anyscale(rng), t, base='hundreds')
    local, off = shifted(rng, s, float(rng.choice([0., 10., 100.])))
    run(c, s, local, off)

def case_many(c):
    """Sizes of real models: the rows of some nodes against the reference on their surroundings."""
    rng, a = c.rng, api()
    top = 40 if c.tier == 'thorough' else 32
    nx, ny = int(rng.integers(20, top)), int(rng.integers(26, top))
    pts, t = gen.grid(rng, nx, ny, *rng.uniform(.5, 3, 2), jitter=.2)
    s = gen.Spec(pts*anyscale(rng), t, base='many')
    exact(rng, s)
    p = Problem(c, spec=s, uncoupled=True, route='delaunay')
    al, ao, meth = gen.alpha_of(rng), bool(rng.integers(2)), METH[int(rng.integers(2))]
    d = gen.disp(rng, p.n, s.size()*1e-3)
    c.mon.trap_fp = True
    try:
        K = a.calc_k0(p.mesh, p.mode)
        S = a.add_k0s(np.zeros(K.shape), p.mesh, p.mode, method=meth, alpha=al, maxl_from_area=ao)
        G = a.calc_kG(d.copy(), p.mesh, p.mode)
    finally:
        c.mon.trap_fp = False
    for M, nm in ((K, 'k0'), (S, 'k0s'), (G, 'kG')):
        c.ok(M.dtype == np.float64 and M.shape == (5*s.n, 5*s.n), 'matrices of large meshes are float64 arrays of all dofs', matrix=nm, dtype=str(M.dtype), shape=M.shape)
    f = p.snap()
    of = [[] for _ in range(f.N)]
    for k, tr in enumerate(f.tris):
        for n in tr:
            of[n].append(k)
    ix = np.array([int(i) for i in f.index])
    pick = [0, f.N-1] + [int(i) for i in rng.integers(0, f.N, 6)]
    for i in pick:
        ring = {n for k in of[i] for n in f.tris[k]}
        tr = sorted({k for n in ring for k in of[n]})
        nd = sorted({n for k in tr for n in f.tris[k]})
        to = {n: j for j, n in enumerate(nd)}
        u = ref.Snap.of(f.xyz[nd], [[to[n] for n in f.tris[k]] for k in tr], [f.nprop[n] for n in nd], [f.eprop[k] for k in tr])
        r = 5*to[i] + np.arange(5)
        R = 5*ix[i] + np.arange(5)
        cols = (5*ix[nd][:, None] + np.arange(5)).ravel()
        du = np.asarray(d, float)[cols]
        GG, GM = ref.kG(u, p.mode, du, parts=True)
        for M, want, nm in ((K, ref.k0(u, p.mode), 'k0'), (S, ref.shear(u, p.mode, meth, al, ao), 'k0s: ' + meth), (G, GG, 'kG')):
            q = np.sqrt(np.abs(np.diag(want)))
            for kd in range(5):
                q[kd::5] = np.maximum(q[kd::5], 1e-9*(q[kd::5].max() or q.max()))
            sc = np.maximum(GM, 1e-7*GM.max()) if nm == 'kG' else np.outer(q, q)
            c.close(M[np.ix_(R, cols)], want[r], 'rows of a node of a large mesh: ' + nm, tol=1e-8, scale=sc[r])
            rest = M[R].copy(); rest[:, cols] = 0
            c.ok(not rest.any(), 'no coupling outside the surroundings of a node: ' + nm.split(':')[0], node=i)
    c.stats['largest mesh'] = max(c.stats['largest mesh'], s.n)
    c.note(nodes=s.n, trias=len(t), mode=p.mode, method=meth, alpha=al)
    c.sig(s.key(), p.mode, meth)

def case_random_state(c):
    """Extreme displacement vectors and property fields spread over decades."""
    rng = c.rng
    s = base(rng, anyscale(rng))
    local, off = shifted(rng, s, 0.)
    run(c, s, local, off, dscale=float(10**rng.uniform(-30, 15)))
