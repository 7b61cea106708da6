"""C32: smoothing-domain data left on the edges."""
import numpy as np
from . import gen, ref
from .common import *
RULE = ('domain polygon, area and boundary integration data of every edge of random meshes after calc_k0, also after the mesh moved and was calculated again; '
        'distinct by mesh')
KINDS = [('any', 6), ('moved', 2), ('big', .7), ('orders', 1)]
NEED_EVENTS = ['calc_k0']
MIN_CASES = 60

def cross(o, a, b):
    return (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])

def walk(c, mesh, s):
    """Everything calc_k0 left on the edges against the triangles (Snap s)."""
    eid = {e: i for i, e in enumerate(mesh.elements)}
    pos = {n: i for i, n in enumerate(s.nid)}
    X = np.abs(s.xyz[:, :2]).max()
    covered = np.zeros(len(s.tris))
    for key, e in mesh.edges.items():
        ts = [eid[t.eid] for t in e.trias]
        ends = [s.xyz[pos[n]] for n in key]
        mids = [s.xyz[s.tris[t]].mean(axis=0) for t in ts]
        l = max(np.abs(a-b).max() for t in ts for a in s.xyz[s.tris[t]] for b in s.xyz[s.tris[t]])
        lim = 1e-9*l + 1e-13*X
        want = sum(s.area[t] for t in ts)/3
        alim = 1e-9*want + 40*2.3e-16*X*l
        c.ok(abs(e.Ac - want) <= alim, 'Ac is a third of the adjacent triangles', edge=key, got=float(e.Ac), expected=float(want))
        for t in ts:
            covered[t] += e.Ac*s.area[t]/sum(s.area[q] for q in ts)
        sd = np.asarray(getattr(e, 'sdomain', ()), float)
        if sd.size:
            c.stats['domain polygons'] += 1
            P = sd[:-1] if len(sd) > 1 and np.abs(sd[0]-sd[-1]).max() <= lim else sd
            c.ok(len(P) == 2 + len(ts), 'a domain has the two end nodes and the centroids as corners', edge=key, got=len(P), triangles=len(ts))
            for q in ends + mids:
                c.ok(np.abs(P - q).max(axis=1).min() <= lim, 'a domain has the two end nodes and the centroids as corners', edge=key, missing=q)
            sh = .5*sum(cross((0, 0), P[i-1]-P[0], P[i]-P[0]) for i in range(len(P)))
            c.ok(abs(abs(sh) - want) <= alim, 'the polygon of a domain encloses its area', edge=key, got=float(abs(sh)), expected=float(want))
        ip = list(getattr(e, 'ipts', ()) or ())
        lacking = [nm for q in ip for nm in ('nx', 'ny', 'le', 'xyz', 'f1', 'f2', 'f3', 'n1', 'n2', 'n3') if not hasattr(q, nm)]
        c.ok(len(ip) >= 3 and not lacking, 'every edge carries the integration points of its domain', edge=key, points=len(ip), lacking=lacking[:3])
        if ip and not lacking:
            c.stats['boundary integrations'] += 1
            nl = np.array([[q.nx*q.le, q.ny*q.le] for q in ip])
            per = sum(abs(q.le) for q in ip)
            c.ok(np.abs([np.hypot(q.nx, q.ny) - 1 for q in ip]).max() <= 1e-9 + 1e-13*X/min(q.le for q in ip), 'normals have unit length', edge=key)
            c.ok(np.abs(nl.sum(axis=0)).max() <= 1e-9*per + 1e-13*X, 'the boundary of a domain closes', edge=key, got=nl.sum(axis=0))
            o = np.mean(ends, axis=0)[:2]
            M = sum(np.outer(v, np.asarray(q.xyz)[:2]-o) for v, q in zip(nl, ip))
            c.ok(np.abs(M - want*np.eye(2)).max() <= 1e-9*per*l + 40*2.3e-16*X*l, 'outward boundary integral of x equals the area (divergence theorem)', edge=key, got=M, expected=float(want))
            for q in ip:
                f = np.array([q.f1, q.f2, q.f3])
                c.ok(abs(f.sum() - 1) < 1e-12 and (f > -1e-12).all(), 'shape functions at a boundary point sum to one', edge=key, f=f)
                pts = np.array([np.asarray(n.xyz, float) for n in (q.n1, q.n2, q.n3)])
                c.ok(np.abs(f @ pts - np.asarray(q.xyz, float)).max() <= lim, 'boundary points lie where their shape functions say', edge=key)
                if getattr(q, 'tria', None) is not None:
                    c.ok(sorted(n.nid for n in (q.n1, q.n2, q.n3)) == sorted(q.tria.node_ids) and q.tria in list(e.trias), 'boundary points belong to a triangle of the edge', edge=key)
    c.ok(np.abs(covered - s.area).max() <= 1e-9*max(s.area) + 200*2.3e-16*X*np.ptp(s.xyz[:, :2]), 'the domains cover every triangle exactly once')

def run(c, p):
    api().calc_k0(p.mesh, p.mode)
    walk(c, p.mesh, p.snap())

def case_any(c):
    p = Problem(c)
    run(c, p)
    describe(c, p)

def case_big(c):
    p = Problem(c, big=True)
    run(c, p)
    describe(c, p)

def case_moved(c):
    rng = c.rng
    p = Problem(c)
    run(c, p)
    L = p.spec.size()
    M = np.eye(3); M[:2, :2] = [[rng.uniform(.5, 2), rng.uniform(-.5, .5)], [0, rng.uniform(.5, 2)]]
    if rng.random() < .3:
        M[0] *= -1      # mirrored: every triangle turns over
    for n in p.nodes:
        n.xyz = M @ np.asarray(n.xyz) + np.array([L, -L, 0])
    run(c, p)
    # other analyses leave the data alone
    a = api()
    k = np.zeros((5*p.n, 5*p.n))
    for me in METH:
        a.add_k0s(k, p.mesh, p.mode, method=me)
    a.calc_kG(c.rng.normal(size=5*p.n), p.mesh, p.mode)
    walk(c, p.mesh, p.snap())
    describe(c, p, moved=True)

def case_orders(c):
    """The other order of the two triangles of an edge, and of its nodes."""
    rng = c.rng
    p = Problem(c)
    for e in p.mesh.edges.values():
        if rng.random() < .5:
            e.trias = list(e.trias)[::-1]
    run(c, p)
    describe(c, p, orders=True)
