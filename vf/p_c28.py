"""C28: polygon areas, unit vectors, mid points, smoothing-domain areas."""
from fractions import Fraction
import numpy as np
from . import gen, ref, env
from .common import *
HELPERS = True
RULE = ('random simple polygons (convex, star-shaped, combs, spirals, untangled random ones, integer, tiny, huge, far from the origin) in arrays, lists and tuples, random vectors, all elements and edges '
        'of random meshes and decks; every helper call, also those made inside the assembly, is compared with exact rational arithmetic; distinct by polygon/vector/mesh')
KINDS = [('polygon', 5), ('relations', 3), ('vector', 2), ('mids', 2), ('domains', 3), ('deck', 1)]
NEED_EVENTS = ['area_of_polygon', 'unitvec', 'getMid', 'calc_k0']
MIN_CASES = 60

def exact(x, y):
    """Shoelace in rational arithmetic, and the size of what a float evaluation sums."""
    x, y = [Fraction(float(v)) for v in x], [Fraction(float(v)) for v in y]
    n = len(x)
    s = sum(x[i]*y[(i+1) % n] - x[(i+1) % n]*y[i] for i in range(n))/2
    cy = max(abs(v) for v in y); cx = max(abs(v) for v in x)
    return abs(float(s)), float(cx*cy)*n

def watch(c):
    def area(ev):
        if ev.args is None or ev.exc is not None:
            return
        x, y = np.asarray(ev.args['x'], float), np.asarray(ev.args['y'], float)
        if x.ndim != 1 or len(x) < 3 or not np.isfinite(x.sum() + y.sum()):
            return
        a, m = exact(x, y)
        c.ok(abs(ev.ret - a) <= 1e-12*a + 4e-16*m, 'polygon area', got=float(ev.ret), expected=a, x=x, y=y)
    def unit(ev):
        if ev.args is None or ev.exc is not None:
            return
        v = np.asarray(ev.args['vector'], float)
        m = np.abs(v).max() if v.size else 0
        if v.ndim != 1 or not 1e-140 < m < 1e140:
            return
        w = v.astype(np.longdouble)
        want = (w/np.sqrt((w*w).sum())).astype(float)
        r = np.asarray(ev.ret, float)
        c.ok(r.shape == v.shape and np.abs(r - want).max() <= 1e-14, 'unit vector: norm one, same direction', vector=v, got=r)
    def mid(ev):
        if ev.args is None or ev.exc is not None:
            return
        e = ev.args['elem']
        P = np.array([n.get_position() for n in e.nodes_ref], float)
        c.ok(np.abs(np.asarray(ev.ret) - P.mean(axis=0)).max() <= 1e-14*np.abs(P).max() + 1e-300, 'mid point of an element', got=ev.ret, nodes=P)
    c.mon.subscribe('area_of_polygon', post=area)
    c.mon.subscribe('unitvec', post=unit)
    c.mon.subscribe('getMid', post=mid)

def crosses(P):
    """some pair of non-adjacent sides of the closed polygon crosses or touches"""
    n = len(P)
    def o(a, b, q):
        return (b[0]-a[0])*(q[1]-a[1]) - (b[1]-a[1])*(q[0]-a[0])
    for i in range(n):
        a, b = P[i], P[(i+1) % n]
        for j in range(i+2, n):
            if (j+1) % n == i:
                continue
            p, q = P[j], P[(j+1) % n]
            if o(a, b, p)*o(a, b, q) <= 0 and o(p, q, a)*o(p, q, b) <= 0:
                return i, j
    return None

def polygon(rng):
    """A simple polygon, (n, 2)."""
    k = str(rng.choice(['triangle', 'convex', 'star', 'comb', 'untangled', 'spiral', 'integer', 'quad', 'collinear']))
    if k == 'triangle':
        P = rng.normal(size=(3, 2))
    elif k == 'convex':
        th = np.sort(rng.uniform(0, 2*np.pi, int(rng.integers(4, 15))))
        P = np.c_[np.cos(th), .6*np.sin(th)]
    elif k == 'star':
        n = int(rng.integers(4, 30))
        th = (np.arange(n) + rng.uniform(-.3, .3, n))*2*np.pi/n
        r = rng.uniform(.1, 1, n)
        P = np.c_[r*np.cos(th), r*np.sin(th)]
    elif k == 'comb':
        n = int(rng.integers(2, 8))
        up = [(i, rng.uniform(1, 3) if i % 2 else rng.uniform(.1, .9)) for i in range(2*n)]
        P = np.array([(0, 0), (2*n, 0)] + up[::-1], float)
        P = P if up[0] != (0, 0) else P[1:]
    elif k == 'spiral':
        t = np.linspace(.5, 9, 20)
        P = np.r_[np.c_[t*np.cos(t), t*np.sin(t)], (np.c_[(t+.4)*np.cos(t), (t+.4)*np.sin(t)])[::-1]]
    elif k in ('untangled', 'integer'):
        n = int(rng.integers(4, 12))
        P = rng.normal(size=(n, 2)) if k == 'untangled' else rng.integers(-9, 10, (n, 2)).astype(float)
        for _ in range(300):
            x = crosses(P)
            if x is None:
                break
            i, j = x
            P[i+1:j+1] = P[i+1:j+1][::-1]
        else:
            return polygon(rng)
        if len(np.unique(P, axis=0)) < n:
            return polygon(rng)
    elif k == 'quad':
        P = np.array([[0, 0], [1, 0], [rng.uniform(.3, 2), rng.uniform(.3, 2)], [0, 1.]])
    else:       # vertices in the middle of sides
        P = np.array([[0, 0], [.5, 0], [1, 0], [1, .3], [1, 1], [0, 1], [0, .25]])
    if rng.random() < .5:
        P = P[::-1]
    return k, np.roll(P, int(rng.integers(len(P))), axis=0)

def area(x, y):
    return env.mod('meshless.utils').area_of_polygon(x, y)

def forms(rng, x):
    h = str(rng.choice(['array', 'list', 'tuple', 'strided', 'readonly']))
    if h == 'list':
        return list(map(float, x))
    if h == 'tuple':
        return tuple(map(float, x))
    if h == 'strided':
        b = np.zeros(2*len(x)); b[::2] = x
        return b[::2]
    x = np.array(x)
    if h == 'readonly':
        x.flags.writeable = False
    return x

def case_polygon(c):
    rng = c.rng
    watch(c)
    for _ in range(6):
        k, P = polygon(rng)
        P = P*float(rng.choice([1, 1, 1e-6, 1e4]))
        if rng.random() < .5:
            P = P + rng.normal(size=2)*np.ptp(P)*float(rng.choice([.5, 5, 1000]))
        if k == 'integer' and rng.random() < .5:
            a = area(P[:, 0].round().astype(int), P[:, 1].round().astype(int))
        else:
            a = area(forms(rng, P[:, 0]), forms(rng, P[:, 1]))
        c.ok(a >= 0, 'area is not negative')
        c.sig(P)
        c.stats['polygon ' + k] += 1
    c.note(polygon=P, shape=k)

def case_relations(c):
    rng = c.rng
    watch(c)
    k, P = polygon(rng)
    a = area(P[:, 0], P[:, 1])
    n = len(P)
    m = 1e-11*np.abs(P).max()**2*n
    c.ok(abs(area(P[::-1, 0], P[::-1, 1]) - a) <= m, 'independent of orientation')
    for s in range(n if n < 9 else 5):
        Q = np.roll(P, s, axis=0)
        c.ok(abs(area(Q[:, 0], Q[:, 1]) - a) <= m, 'independent of the starting vertex', start=s)
        Q = np.r_[Q, Q[:1]]
        c.ok(abs(area(Q[:, 0], Q[:, 1]) - a) <= m, 'independent of a repeated closing vertex', start=s)
    th = rng.uniform(0, 2*np.pi)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    Q = P @ R.T
    c.ok(abs(area(Q[:, 0], Q[:, 1]) - a) <= m, 'independent of rotation')
    t = rng.normal(size=2)*10
    c.ok(abs(area(P[:, 0]+t[0], P[:, 1]+t[1]) - a) <= 200*m + 1e-9*n, 'independent of translation')
    s = float(10**rng.uniform(-4, 4))
    c.ok(abs(area(P[:, 0]*s, P[:, 1]*s) - a*s*s) <= m*s*s, 'scales quadratically')
    c.ok(abs(area(P[:, 1], P[:, 0]) - a) <= m, 'mirror image has the same area')
    c.note(polygon=P, shape=k)
    c.sig('rel', P)

def case_vector(c):
    rng = c.rng
    watch(c)
    f = env.mod('meshless.utils').unitvec
    for _ in range(10):
        v = rng.normal(size=int(rng.choice([2, 3, 3, 3, 6])))
        k = str(rng.choice(['normal', 'axis', 'tiny', 'huge', 'int', 'mixed']))
        if k == 'axis':
            v = np.zeros(3); v[rng.integers(3)] = rng.choice([-1, 1])*rng.uniform(.01, 100)
        elif k == 'tiny':
            v *= 1e-30
        elif k == 'huge':
            v *= 1e30
        elif k == 'int':
            v = rng.integers(-9, 10, 3)
            if not v.any():
                v[0] = 1
        elif k == 'mixed':
            v *= 10.**rng.uniform(-8, 8, len(v))
        keep = v.copy()
        if rng.random() < .3:
            v.flags.writeable = False
        u = f(v)
        c.ok(np.array_equal(v, keep), 'the argument is not changed')
        c.ok(abs(np.linalg.norm(u) - 1) < 1e-12, 'norm one')
        c.ok(np.abs(f(u) - u).max() < 1e-12 and np.abs(f(-v) + u).max() < 1e-12 and np.abs(f(7.5*v) - u).max() < 1e-12, 'depends on the direction only')
        c.sig(keep)
    c.note(vector=keep)

def mid_checks(c, mesh):
    getMid = env.mod('meshless.utils').getMid
    for e in mesh.elements.values():
        P = np.array([mesh.nodes[i].xyz for i in e.node_ids], float)
        c.ok(np.abs(getMid(e) - P.mean(axis=0)).max() <= 1e-14*np.abs(P).max() + 1e-300, 'mid point of a triangle', got=getMid(e), nodes=P)
    for (a, b), ed in mesh.edges.items():
        P = np.array([mesh.nodes[a].xyz, mesh.nodes[b].xyz], float)
        c.ok(np.abs(ed.getMid() - P.mean(axis=0)).max() <= 1e-14*np.abs(P).max() + 1e-300, 'mid point of an edge', got=ed.getMid(), nodes=P)

def case_mids(c):
    rng = c.rng
    watch(c)
    s = gen.mesh(rng)
    if rng.random() < .4:       # mid points are spatial
        s.pts = s.pts + np.c_[np.zeros((s.n, 2)), rng.normal(size=s.n)*s.size()]
    m, nodes, trias = gen.build(rng, s, c.tmp)
    mid_checks(c, m)
    for n in nodes:             # and follow the nodes
        n.xyz = n.xyz + rng.normal(size=3)*s.size()
    mid_checks(c, m)
    describe_mesh(c, s)

def describe_mesh(c, s):
    c.note(mesh=s.describe()); c.sig(s.key())

def case_domains(c):
    """Smoothing domains partition the mesh, also after the mesh has moved."""
    rng = c.rng
    watch(c)
    p = Problem(c, big=rng.random() < .3)
    for k in range(2):
        api().calc_k0(p.mesh, p.mode)
        s = p.snap()
        A = sum(s.area)
        got = sum(e.Ac for e in p.mesh.edges.values())
        c.ok(abs(got - A) <= 1e-9*A + 1e-13*len(s.tris)*np.abs(s.xyz[:, :2]).max()**2, 'edge domains add up to the mesh area', got=float(got), expected=float(A))
        eid = {e: i for i, e in enumerate(p.mesh.elements)}
        for e in p.mesh.edges.values():
            want = sum(s.area[eid[t.eid]] for t in e.trias)/3
            c.ok(abs(e.Ac - want) <= 1e-9*want + 1e-13*np.abs(s.xyz[:, :2]).max()**2, 'an edge domain is a third of its triangles', got=float(e.Ac), expected=float(want))
        f = rng.uniform(.5, 3, 2)
        for n in p.nodes:
            n.xyz = n.xyz*np.array([f[0], f[1], 1.])
    describe_mesh(c, p.spec)

def case_deck(c):
    """Elements of any kind read with pyNastran, GRIDs in local systems."""
    from pyNastran.bdf.bdf import read_bdf
    rng = c.rng
    watch(c)
    getMid = env.mod('meshless.utils').getMid
    o = rng.normal(size=3)
    th = rng.uniform(0, 2*np.pi)
    ax = np.array([np.cos(th), np.sin(th), 0])
    L = ['SOL 101', 'CEND', 'BEGIN BULK', 'MAT1,1,7.1e10,,.33', 'PSHELL,1,1,.007,1,,1',
         'CORD2R,5,,' + ','.join(gen.num(round(v, 5)) for v in o) + ',' + ','.join(gen.num(round(v, 5)) for v in o + [0, 0, 1.]),
         ',' + ','.join(gen.num(round(v, 5)) for v in o + ax)]
    X = rng.normal(size=(6, 3)).round(5)
    for i, x in enumerate(X):
        L.append('GRID,%d,%s,%s' % (i+1, 5 if i % 2 else '', ','.join(gen.num(v) for v in x)))
    L += ['CTRIA3,1,1,1,2,3', 'CQUAD4,2,1,1,4,5,6', 'CTRIA3,3,1,6,5,4', 'ENDDATA', '']
    open('d.bdf', 'w').write('\n'.join(L))
    m = read_bdf('d.bdf', debug=False)
    k = ax/np.linalg.norm(ax.round(5))
    oo = np.array([round(v, 5) for v in o])
    e1 = np.array([round(v, 5) for v in o + ax]) - oo
    e3 = np.array([round(v, 5) for v in o + [0, 0, 1.]]) - oo
    e3 = e3/np.linalg.norm(e3); e2 = np.cross(e3, e1); e2 /= np.linalg.norm(e2); e1 = np.cross(e2, e3)
    G = {i+1: (oo + x[0]*e1 + x[1]*e2 + x[2]*e3 if i % 2 else x) for i, x in enumerate(X)}
    for e in m.elements.values():
        want = np.mean([G[i] for i in e.node_ids], axis=0)
        c.ok(np.abs(getMid(e) - want).max() < 1e-9, 'mid point of a pyNastran element in global coordinates', got=getMid(e), expected=want)
    c.note(deck=L[5:12]); c.sig(X, o)
