"""Workload generation: meshes, property fields, displacement vectors."""
import os, types
import numpy as np
from scipy.spatial import Delaunay
from . import env

class Spec(object):
    """A triangulation as data: pts (N,3), tris (T,3) 0-based, nids, eids."""
    def __init__(self, pts, tris, nids=None, eids=None, **tags):
        self.pts = np.asarray(pts, float)
        if self.pts.shape[1] == 2:
            self.pts = np.c_[self.pts, np.zeros(len(self.pts))]
        self.tris = np.asarray(tris, int).reshape(-1, 3)
        self.nids = list(range(1, len(self.pts)+1)) if nids is None else [int(i) for i in nids]
        self.eids = list(range(1, len(self.tris)+1)) if eids is None else [int(i) for i in eids]
        self.tags = tags
    def copy(self, **kw):
        s = Spec(self.pts.copy(), self.tris.copy(), list(self.nids), list(self.eids), **self.tags)
        for k, v in kw.items():
            setattr(s, k, v)
        return s
    @property
    def n(self):
        return len(self.pts)
    def edges(self):
        """dict (lo, hi) node positions -> list of triangle positions"""
        e = {}
        for t, (a, b, c) in enumerate(self.tris):
            for p, q in ((a, b), (b, c), (c, a)):
                e.setdefault((min(p, q), max(p, q)), []).append(t)
        return e
    def used(self):
        return sorted(set(self.tris.ravel().tolist()))
    def areas(self):
        a, b, c = (self.pts[self.tris[:, i], :2] for i in range(3))
        return 0.5*((b-a)[:, 0]*(c-a)[:, 1] - (b-a)[:, 1]*(c-a)[:, 0])
    def size(self):
        u = self.used()
        return float(np.ptp(self.pts[u, :2], axis=0).max())
    def describe(self):
        d = dict(nodes=self.n, trias=len(self.tris), **{k: v for k, v in self.tags.items()})
        if self.n <= 6:
            d.update(points=self.pts.tolist(), triangles=self.tris.tolist(), nids=self.nids)
        return d
    def key(self):
        return (self.pts.round(12).tobytes(), self.tris.tobytes(), tuple(self.nids), tuple(self.eids))

def quality(pts, tris):
    """min height / max edge per triangle, and signed area"""
    P = pts[:, :2]
    a, b, c = P[tris[:, 0]], P[tris[:, 1]], P[tris[:, 2]]
    ar = 0.5*((b-a)[:, 0]*(c-a)[:, 1] - (b-a)[:, 1]*(c-a)[:, 0])
    L = np.max([np.hypot(*(b-a).T), np.hypot(*(c-b).T), np.hypot(*(a-c).T)], axis=0)
    return 2*np.abs(ar)/np.maximum(L, 1e-300)**2, ar

def valid(p, t):
    """Counter-clockwise triangles traverse every shared edge in opposite directions."""
    t = ccw(p, t)
    seen = set()
    for a, b, c in t.tolist():
        for e in ((a, b), (b, c), (c, a)):
            if e in seen:
                return False
            seen.add(e)
    return True

def grid(rng, nx, ny, lx=1., ly=1., pattern=None, jitter=0.):
    X, Y = np.meshgrid(np.linspace(0, lx, nx+1), np.linspace(0, ly, ny+1), indexing='ij')
    pts = np.c_[X.ravel(), Y.ravel()]
    tris = []
    pattern = pattern or rng.choice(['left', 'right', 'alt', 'rand'])
    for i in range(nx):
        for j in range(ny):
            a, b, c, d = i*(ny+1)+j, (i+1)*(ny+1)+j, (i+1)*(ny+1)+j+1, i*(ny+1)+j+1
            k = dict(left=0, right=1, alt=(i+j) % 2).get(pattern)
            if k is None:
                k = int(rng.integers(2))
            tris += [(a, b, c), (a, c, d)] if k == 0 else [(a, b, d), (b, c, d)]
    if jitter:
        d = rng.uniform(-1, 1, pts.shape)*jitter*np.array([lx/nx, ly/ny])
        pts = pts + d
    return pts, np.array(tris)

def _base(rng, kind, big):
    if kind == 'tri1':
        while True:
            p = rng.uniform(-1, 1, (3, 2))
            t = np.array([[0, 1, 2]])
            if quality(p, t)[0][0] > .05:
                return p, t
    if kind == 'rect2':
        lx, ly = rng.uniform(.3, 3, 2)
        return grid(rng, 1, 1, lx, ly)
    if kind == 'fan':
        n = int(rng.integers(3, 9))
        closed = rng.random() < .5
        th = np.sort((np.arange(n) + rng.uniform(-.3, .3, n))*(2*np.pi/n if closed else np.pi/n))
        r = rng.uniform(.5, 1.5, n)
        p = np.r_[[[0, 0]], np.c_[r*np.cos(th), r*np.sin(th)]]
        t = [(0, i, i+1) for i in range(1, n)] + ([(0, n, 1)] if closed else [])
        return p, np.array(t)
    if kind == 'strip':
        n = int(rng.integers(2, 8))
        x = np.cumsum(rng.uniform(.3, 1, n+2))
        p = np.c_[x, [(i % 2)*rng.uniform(.5, 1.5) for i in range(n+2)]]
        return p, np.array([(i, i+1, i+2) if i % 2 else (i, i+2, i+1) for i in range(n)])
    if kind == 'grid':
        m = 6 if big else 4
        nx, ny = rng.integers(1, m, 2)
        return grid(rng, nx, ny, *rng.uniform(.5, 3, 2), jitter=rng.choice([0., .2]))
    if kind == 'delaunay':
        n = int(rng.integers(4, 30 if big else 14))
        return np.asarray(rng.uniform(0, 1, (n, 2))), None
    if kind == 'disk':
        n = int(rng.integers(5, 16))
        p = [[0., 0.]]
        for k in range(1, 3):
            th = np.arange(n)*2*np.pi/n + rng.uniform(0, .5)
            p += (k*np.c_[np.cos(th), np.sin(th)]).tolist()
        return np.array(p), None
    if kind == 'holes':
        p, t = grid(rng, int(rng.integers(3, 6)), int(rng.integers(3, 6)), 2., 1.5, jitter=rng.choice([0., .15]))
        nt = len(t)
        drop = set()
        q = int(rng.integers(1, max(2, nt//4)))
        drop = set(rng.choice(nt, q, replace=False).tolist())
        return p, np.array([x for i, x in enumerate(t) if i not in drop])
    if kind == 'L':
        p, t = grid(rng, 4, 4, 1., 1.)
        cen = p[t].mean(axis=1)
        return p, t[~((cen[:, 0] > .5) & (cen[:, 1] > .5))]
    if kind == 'large':
        nx, ny = rng.integers(9, 14, 2)
        return grid(rng, nx, ny, *rng.uniform(.5, 3, 2), jitter=.2)
    if kind == 'graded':
        n = int(rng.integers(3, 7))
        x = np.r_[0, np.cumsum(np.geomspace(1, float(rng.choice([30., 1000.])), n))]
        p, t = grid(rng, n, 2)
        p[:, 0] = x[np.round(p[:, 0]*n).astype(int)]
        p[:, 1] *= 10
        return p, t
    raise KeyError(kind)

BASES = [('tri1', 1), ('rect2', 1.5), ('fan', 2), ('strip', 2), ('grid', 4), ('delaunay', 4), ('disk', 1), ('holes', 3), ('L', 1), ('graded', 1)]

def mesh(rng, kind=None, big=False, multi=None, scale=None, translate=None, z=None, rotate=True,
         orient=None, number=None, unused=None, crack=None, minq=0.02, plain=False):
    """A random valid triangulation of the xy plane."""
    if kind is None:
        ks, w = zip(*BASES)
        w = np.array(w)/sum(w)
        kind = str(rng.choice(ks, p=w))
    while True:
        p, t = _base(rng, kind, big)
        if t is None:
            t = np.asarray(Delaunay(p).simplices)
            q, _ = quality(p, t)
            t = t[q > minq]
        else:
            q, _ = quality(p, t)
            if kind != 'graded' and (q < minq).any():
                continue
        if len(t) and valid(p, t):
            break
    tags = dict(base=kind)
    if plain:
        return Spec(p, ccw(p, t), **tags)
    if multi is None:
        multi = rng.random() < .12
    if multi:
        while True:
            p2, t2 = _base(rng, str(rng.choice(['tri1', 'rect2', 'fan'])), False)
            if valid(p2, t2) and (quality(p2, t2)[0] > minq).all():
                break
        p2 = p2 - p2.min(axis=0) + np.array([p[:, 0].max() + rng.choice([0., .5, 3.]), 0])
        t = np.r_[t, t2 + len(p)]
        p = np.r_[p, p2]
        tags['parts'] = 2
        if rng.random() < .5:   # touch at one node only
            i = int(t2.ravel()[0]) + len(p) - len(p2)
            j = int(np.argmax(p[:len(p)-len(p2), 0]))
            if j in set(t.ravel().tolist()):
                shift = p[j] - p2[np.argmin(p2[:, 0])]
                p[len(p)-len(p2):] += shift
                k = len(p)-len(p2)+int(np.argmin(p2[:, 0]))
                t = np.where(t == k, j, t)
                tags['parts'] = 'touching'
    p = p - p.mean(axis=0)*(0 if rng.random() < .5 else 1)
    if rotate and rng.random() < .7:
        a = float(rng.choice([rng.uniform(0, 2*np.pi), np.pi/2, np.pi, np.pi/4]))
        c, s = np.cos(a), np.sin(a)
        p = p @ np.array([[c, s], [-s, c]])
        tags['angle'] = round(a, 3)
    # a crack: triangles around a node part company, two nodes at one place
    if crack is None:
        crack = rng.random() < .08
    if crack and len(t) > 1:
        for _ in range(int(rng.integers(1, 4))):
            i = int(rng.choice(t.ravel()))
            at = np.where((t == i).any(axis=1))[0]
            if len(at) > 1:
                go = rng.choice(at, int(rng.integers(1, len(at))), replace=False)
                p = np.r_[p, p[i:i+1]]
                t = t.copy()
                t[go] = np.where(t[go] == i, len(p)-1, t[go])
                tags['crack'] = tags.get('crack', 0) + 1
    # unused points
    if unused is None:
        unused = int(rng.integers(1, 4)) if rng.random() < .25 else 0
    if unused:
        m = p.mean(axis=0)
        q = m + rng.uniform(-3, 3, (unused, 2))*np.ptp(p, axis=0).max()
        where = rng.integers(0, 2)
        if where:
            p = np.r_[p, q]
        else:
            p = np.r_[q, p]; t = t + unused
    nun = len(p) - len(set(t.ravel().tolist()))
    if nun:
        tags['unused'] = nun
    if scale is None:
        scale = float(rng.choice([1., 1., 1., 1e-3, 1e-6, 20., 1e4, 10.**rng.uniform(-10, 8)]))
    if scale != 1:
        tags['scale'] = scale
    p = p*scale
    if translate is None:
        translate = float(rng.choice([0, 0, 0, 1, 30., -30.]))
    if translate:
        tags['offset'] = translate
        p = p + translate*scale*rng.uniform(.5, 1, 2)*rng.choice([-1, 1], 2)
    if z is None:
        z = float(rng.choice([0, 0, 0, 1.5, -2.5, 100.]))
    if z:
        tags['z'] = z
    p = np.c_[p, np.full(len(p), z*scale)]
    # orientation
    t = ccw(p, t)
    if orient is None:
        orient = str(rng.choice(['ccw', 'cw', 'mixed', 'mixed']))
    if orient == 'cw':
        t = t[:, ::-1]
    elif orient == 'mixed':
        f = rng.random(len(t)) < .5
        t = np.where(f[:, None], t[:, ::-1], t)
    k = rng.integers(0, 3, len(t))
    t = np.array([np.roll(x, i) for x, i in zip(t, k)])
    tags['orient'] = orient
    # numbering
    n, nt = len(p), len(t)
    if number is None:
        number = str(rng.choice(['seq', 'shuffle', 'sparse', 'huge', 'reversed']))
    if number != 'seq':
        perm = rng.permutation(n)
        inv = np.argsort(perm)
        p, t = p[perm], inv[t]
        t = t[rng.permutation(nt)]
    nids, eids = ids(rng, number, n), ids(rng, number, nt)
    tags['ids'] = number
    return Spec(p, t, nids, eids, **tags)

def slivers(rng, top=5., **kw):
    """A valid mesh squeezed in some direction: elements as flat as 1:10^top."""
    kw.setdefault('translate', 0.)
    s = mesh(rng, **kw)
    a, asp = rng.uniform(0, np.pi), 10**rng.uniform(1., top)
    if rng.random() < .4:
        a = float(rng.choice([0., np.pi/2]))
    u, v = np.array([np.cos(a), np.sin(a)]), np.array([-np.sin(a), np.cos(a)])
    xy = s.pts[:, :2]
    if rng.random() < .4 and len(s.tris) == 1:      # a cap: the middle of the long side pressed in
        b, c, d = s.tris[0]
        L = np.linalg.norm(xy[c] - xy[b])
        n = np.array([-(xy[c] - xy[b])[1], (xy[c] - xy[b])[0]])/L
        xy[d] = xy[b] + rng.uniform(.2, .8)*(xy[c] - xy[b]) + n*L/asp*rng.choice([-1, 1])
        s.tags['flat cap'] = 1
    else:
        s.pts[:, :2] = np.outer(xy @ u, u) + np.outer(xy @ v, v)/asp
    s.tags['slivers'] = int(np.log10(asp))
    return s

def ids(rng, how, n):
    if how == 'seq':
        return list(range(1, n+1))
    if how == 'shuffle':
        return (rng.permutation(n) + 1).tolist()
    if how == 'reversed':
        return list(range(n, 0, -1))
    if how == 'sparse':
        return rng.choice(np.arange(1, 40*n+10), n, replace=False).tolist()
    return (rng.choice(10**6, n, replace=False) + 99000000 - 1).tolist()

def ccw(p, t):
    _, ar = quality(p, t)
    return np.where((ar < 0)[:, None], t[:, ::-1], t)

# ---------------------------------------------------------------- building
def as_tri(tris):
    return types.SimpleNamespace(simplices=np.asarray(tris))

def build_delaunay(spec, form='array3'):
    from meshless.espim.read_mesh import read_delaunay
    pts = spec.pts
    if form == 'array2':
        pts = spec.pts[:, :2]
    elif form == 'list3':
        pts = spec.pts.tolist()
    elif form == 'list2':
        pts = spec.pts[:, :2].tolist()
    elif form == 'array3':
        pts = spec.pts.copy()
    return read_delaunay(pts, as_tri(spec.tris))

def deck(spec, coords=None, extra=(), fmt=None, comments=False, order=None, rng=None):
    """Nastran deck text; coords: list of (cp, xyz) per node; with rng also fields and cards that do not concern the mesh."""
    L = ['SOL 101', 'CEND', 'BEGIN BULK', 'MAT1,1,7.1e10,,.33', 'PSHELL,1,1,.007,1,,1']
    cd, ps, zo = [(rng is not None and rng.random() < .4) for _ in range(3)]
    if rng is not None:
        h = float(10**rng.uniform(-4, 1))
        L += [l for l in ('PARAM,POST,-1', 'SPC1,1,123456,%d' % spec.nids[0], 'FORCE,2,%d,,%s,0.,0.,1.' % (spec.nids[-1], num(h)), 'EIGRL,3,,,5',
                          'PSHELL,7,1,%s' % num(h), 'MAT1,9,1.e7,,.3', 'PLOAD2,2,1.5,%d' % spec.eids[0]) if rng.random() < .3]
        if rng.random() < .3:
            L.append('GRDSET,,,,,,,%s' % rng.choice(['6', '345', '123456']))
        if cd:
            L.append('CORD2%s,812,,1.,2.,3.,1.,2.5,4.\n,2.,2.5,3.' % rng.choice(list('RCS')))
    start = len(L)
    for i, nid in enumerate(spec.nids):
        cp, xyz = ('', spec.pts[i]) if coords is None else coords[i]
        if fmt == 'large':
            a = ['%-16s' % num(v, 16) for v in xyz]
            L.append('GRID*   %16d%16s%s%s*' % (nid, cp, a[0], a[1]))
            L.append('*       %s' % a[2])
        else:
            t = '' if not (cd or ps) else ',%s,%s' % ('812' if cd and rng.random() < .6 else '', rng.choice(['6', '126', '345']) if ps and rng.random() < .6 else '')
            L.append('GRID,%d,%s,%s%s' % (nid, cp, ','.join(num(v) for v in xyz), t))
        if comments and i % 3 == 0:
            L.append('$ a comment')
    rows = ['CTRIA3,%d,1,%d,%d,%d' % ((spec.eids[k],) + tuple(spec.nids[j] for j in t)) for k, t in enumerate(spec.tris)]
    if zo:      # material angle, offset of the plate, corner thicknesses
        rows = [r + (',%s,%s' % (num(round(rng.uniform(-90, 90), 3)), num(round(rng.normal()*h, 6))) if rng.random() < .7 else '') for r in rows]
        if rng.random() < .3:
            rows = [r + '\n,,,%s,%s,%s' % tuple(num(round(h*u, 6)) for u in rng.uniform(.5, 2, 3)) if r.count(',') > 5 else r for r in rows]
    if rng is not None and rng.random() < .3:       # elements before their grids
        L[start:start], rows = rows, []
    L += rows + list(extra) + ['ENDDATA', '']
    return '\n'.join(L)

def num(v, width=None):
    s = repr(float(v))
    if width:
        for d in range(16, 3, -1):
            s = '%.*g' % (d, v)
            if '.' not in s and 'e' not in s:
                s += '.'
            if 'e' in s and '.' not in s:
                s = s.replace('e', '.e')
            if len(s) <= width:
                break
    return s

def build_deck(spec, path, **kw):
    from meshless.espim.read_mesh import read_mesh
    with open(path, 'w') as f:
        f.write(deck(spec, **kw))
    return read_mesh(path)

def build(rng, spec, tmp, route=None):
    """Build a mesh through a random reader; returns (mesh, nodes by point position, trias by position)."""
    if route is None:
        route = 'deck' if rng.random() < .35 else 'delaunay'
    if route == 'deck':
        m = build_deck(spec, os.path.join(tmp, 'm%d.bdf' % rng.integers(10**9)), rng=rng if rng.random() < .5 else None)
        nodes = [m.nodes[i] for i in spec.nids]
        trias = [m.elements[i] for i in spec.eids]
    else:
        forms = ['array3', 'list3'] + (['array2', 'list2'] if not spec.pts[:, 2].any() else [])
        m = build_delaunay(spec, str(rng.choice(forms)))
        nodes, trias = list(m.nodes.values()), list(m.elements.values())
    return m, nodes, trias

# -------------------------------------------------------------- properties
def laminate(rng, h=None, E=7e10, iso=False, ortho_angles=False, nplies=None, g_equal=False, scf=True):
    """A real composites Laminate: random plies, generally unsymmetric and fully populated."""
    from composites.laminate import read_stack
    h = float(rng.choice([.001, .01, .1]))*rng.uniform(.5, 2) if h is None else h
    if iso:
        nu = rng.uniform(0, .45)
        lam = read_stack([0], plyt=h, laminaprop=(E, nu))
    else:
        n = int(nplies or rng.integers(1, 6))
        ang = rng.choice([0, 90], n) if ortho_angles else rng.uniform(-90, 90, n)
        t = rng.uniform(.2, 1, n); t *= h/t.sum()
        e1 = E*rng.uniform(1, 3); e2 = E*rng.uniform(.1, .8)
        g12, g13, g23 = E*rng.uniform(.05, .5, 3)
        if g_equal:
            g23 = g13
        lam = read_stack(ang.tolist(), plyts=t.tolist(), laminaprops=[(e1, e2, rng.uniform(.1, .35), g12, g13, g23)]*n)
    if scf:
        lam.scf_k13 = float(rng.uniform(.4, 1.)) if scf is True else scf
        lam.scf_k23 = float(rng.uniform(.4, 1.)) if scf is True else scf
    return lam

def synth(rng, h=None, E=7e10, coupled_shear=False):
    """A synthetic property with arbitrary positive definite ABD and independent E."""
    h = float(rng.choice([.001, .01, .1]))*rng.uniform(.5, 2) if h is None else h
    G = rng.normal(size=(6, 6))
    M = G @ G.T + .3*np.eye(6)
    S = np.diag([1, 1, 1, h, h, h])
    M = E*h*S @ M @ S
    e = np.diag(E*h*rng.uniform(.05, .6, 2))
    if coupled_shear:
        e[0, 1] = e[1, 0] = .3*min(e[0, 0], e[1, 1])*rng.uniform(-1, 1)
    p = types.SimpleNamespace(A=M[:3, :3].copy(), B=.5*(M[:3, 3:] + M[3:, :3]), D=M[3:, 3:].copy(), E=e, h=h,
                              scf_k13=float(rng.uniform(.4, 1)), scf_k23=float(rng.uniform(.4, 1)))
    # symmetrised B may lose definiteness: scale it down
    while np.linalg.eigvalsh(np.block([[p.A, p.B/h], [p.B/h, p.D/h**2]]))[0] <= 1e-3*E*h:
        p.B = .7*p.B
    return p

def prop(rng, size=1., uncoupled=False, **kw):
    """Random property with thickness related to the mesh size."""
    h = size*float(rng.choice([1e-3, 1e-2, .1, .3]))*rng.uniform(.5, 2)
    E = float(rng.choice([7e10, 7e10, 1., 2e5, 1e-3]))
    r = rng.random()
    if r < .15:
        return laminate(rng, h, E, iso=True)
    if r < .6:
        if uncoupled:
            return laminate(rng, h, E, ortho_angles=True)
        return laminate(rng, h, E)
    return synth(rng, h, E, coupled_shear=not uncoupled and rng.random() < .5)

def similar(rng, p, size):
    """Another property of the same order of magnitude as p (for heterogeneous fields)."""
    h = float(p.h)*rng.uniform(.6, 1.6)
    E = float(np.trace(p.A)/p.h)/3
    return laminate(rng, h, E, ortho_angles=True) if rng.random() < .4 else synth(rng, h, E)

def twin(rng, p):
    """A property that equals p in most respects: same object kind of data, one thing different."""
    q = types.SimpleNamespace(A=np.array(p.A, float), B=np.array(p.B, float), D=np.array(p.D, float), E=np.array(p.E, float),
                              h=float(p.h), scf_k13=float(p.scf_k13), scf_k23=float(p.scf_k23))
    what = str(rng.choice(['A', 'A', 'D', 'D', 'B', 'E', 'h', 'k', 'Bsign']))
    if what in 'AD':        # add a positive semidefinite matrix that leaves some entries alone
        M = getattr(q, what)
        v = np.zeros(3)
        on = rng.choice(3, int(rng.integers(1, 3)), replace=False)
        v[on] = np.sqrt(np.diag(M)[on])*rng.uniform(.4, 1.2, len(on))*rng.choice([-1, 1], len(on))
        M += np.outer(v, v)
    elif what == 'B':
        q.B *= rng.uniform(-.9, .5)
    elif what == 'Bsign':
        q.B *= -1
    elif what == 'E':
        i = int(rng.integers(2)); q.E[i, i] *= rng.uniform(1.2, 3)
    elif what == 'h':
        q.h *= rng.uniform(.4, 2)
    else:
        if rng.random() < .5:
            q.scf_k13 *= rng.uniform(.4, .9)
        else:
            q.scf_k23 *= rng.uniform(.4, .9)
    if rng.random() < .35:      # nearly equal
        e = 10.**rng.uniform(-6, -1)
        for k in ('A', 'B', 'D', 'E', 'h', 'scf_k13', 'scf_k23'):
            setattr(q, k, (1-e)*getattr(p, k) + e*getattr(q, k))
    return q

def unit(rng, p):
    """Only one entry (pair) of one of the matrices of p is not zero."""
    q = types.SimpleNamespace(A=np.zeros((3, 3)), B=np.zeros((3, 3)), D=np.zeros((3, 3)), E=np.zeros((2, 2)),
                              h=float(p.h), scf_k13=float(p.scf_k13), scf_k23=float(p.scf_k23))
    for _ in range(int(rng.choice([1, 1, 1, 2]))):
        k = str(rng.choice(['A', 'B', 'D']))
        i, j = [int(x) for x in rng.integers(0, 3, 2)]
        M = getattr(q, k)
        M[i, j] = M[j, i] = np.trace(getattr(p, k if k != 'B' else 'A'))*(p.h if k == 'B' else 1)*rng.uniform(.3, 1)
    i, j = [int(x) for x in rng.integers(0, 2, 2)]
    q.E[i, j] = q.E[j, i] = np.trace(p.E)*rng.uniform(.3, 1)
    return q

def assign(rng, spec, nodes, trias, mode=None, uniform=None, uncoupled=False, units=False):
    """Assign random properties; returns (prop_from_node, list of props by item)."""
    mode = bool(rng.random() < .5) if mode is None else mode
    if uniform is None:
        uniform = rng.random() < .25
    size = spec.size() or 1.
    base = prop(rng, size, uncoupled=True if uncoupled else bool(rng.random() < .5))
    items = nodes if mode else trias
    k = 1 if uniform else int(rng.choice([2, 5, len(items)]))
    pool = [base] + [similar(rng, base, size) for _ in range(min(k, 25) - 1)]
    if rng.random() < .3:
        pool = [base] + [twin(rng, base) for _ in pool[1:]]
    elif units and rng.random() < .35:
        pool = [unit(rng, base) for _ in pool]
        base = pool[0]
        if uncoupled:
            for q in pool:
                q.E[0, 1] = q.E[1, 0] = 0
    out = []
    for i, it in enumerate(items):
        it.prop = pool[int(rng.integers(len(pool)))] if not uniform else base
        out.append(it.prop)
    return mode, out

def assign_uniform(spec, nodes, trias, p, both=True):
    for n in nodes:
        n.prop = p
    for t in trias:
        t.prop = p

def prop_scale(p, s):
    return types.SimpleNamespace(A=p.A*s, B=p.B*s, D=p.D*s, E=p.E*s, h=p.h, scf_k13=p.scf_k13, scf_k23=p.scf_k23)

def prop_add(p, q):
    return types.SimpleNamespace(A=p.A+q.A, B=p.B+q.B, D=p.D+q.D, E=p.E+q.E, h=p.h, scf_k13=p.scf_k13, scf_k23=p.scf_k23)

def disp(rng, n, scale=1.):
    d = rng.normal(size=5*n)*scale
    return d

METHODS = ('cell-based', 'cell-based-no-smoothing', 'edge-based')
def alpha_of(rng):
    return float(rng.choice([0., .08, .2, .6, 1., 10., rng.uniform(0, .6)]))
