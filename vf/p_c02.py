"""C02: geometry of the mesh = geometry of the input."""
import os
import numpy as np
from . import gen, ref
from .common import *
RULE = ('point clouds given as lists/arrays, 2D/3D, int/float, C/F/strided/read-only; decks in free and large field format with GRIDs in the basic '
        'system or in CORD2R/CORD2C/CORD2S/CORD1R systems (also chained); positions compared node by node, matrices compared between routes, '
        'and both owners mutated afterwards; distinct by input')
KINDS = [('points', 3), ('deck_basic', 1), ('deck_local', 4), ('routes', 2), ('ownership', 3)]
NEED_EVENTS = ['read_mesh', 'read_delaunay', 'calc_k0']
MIN_CASES = 80

def forms(rng, pts):
    """Same points in many containers; returns (name, object)."""
    two = not pts[:, 2].any()
    P = pts[:, :2] if two and rng.random() < .7 else pts
    integral = np.all(P == np.round(P))
    k = str(rng.choice(['array', 'list', 'tuples', 'fortran', 'strided', 'readonly', 'int', 'rows', 'float32ok', 'slice3']))
    if k == 'list':
        return k, P.tolist()
    if k == 'tuples':
        return k, tuple(map(tuple, P.tolist()))
    if k == 'fortran':
        return k, np.asfortranarray(P)
    if k == 'strided':
        big = np.full((2*len(P), 2*P.shape[1]), 7e7)
        big[::2, ::2] = P
        return k, big[::2, ::2]
    if k == 'readonly':
        Q = P.copy(); Q.flags.writeable = False
        return k, Q
    if k == 'int' and integral:
        return k, P.astype(int)
    if k == 'rows':
        return k, [r for r in P.copy()]
    if k == 'slice3' and P.shape[1] == 3:
        big = np.c_[np.full(len(P), -5.), P]
        return k, big[:, 1:]
    return 'array', P.copy()

def integerise(rng, s):
    s.pts = np.round(s.pts/s.size()*12)
    return s

def case_points(c):
    s = gen.mesh(c.rng)
    if c.rng.random() < .3:
        s.pts[:, 2] = c.rng.normal(size=s.n)*s.size()
    if c.rng.random() < .25:
        integerise(c.rng, s)
    if c.rng.random() < .3:     # any magnitude
        s.pts = s.pts*10.**c.rng.uniform(-14, 12)
    if c.rng.random() < .2:     # further points at, or very near, given ones
        k = c.rng.integers(0, s.n, 3)
        s.pts = np.r_[s.pts, s.pts[k] + c.rng.normal(size=(3, 3))*np.array([1, 1, s.pts[:, 2].any()])*s.size()*float(c.rng.choice([0, 1e-15, 1e-12, 1e-9, 1e-6]))]
        s.nids += [max(s.nids)+1+i for i in range(3)]
    name, P = forms(c.rng, s.pts)
    m = api().read_delaunay(P, gen.as_tri(s.tris))
    got = np.array([n.xyz for n in m.nodes.values()])
    c.ok(got.shape == s.pts.shape and np.array_equal(got, s.pts), 'node positions equal the points', form=name, got=got[:4], expected=s.pts[:4])
    gp = np.array([n.get_position() for n in m.nodes.values()])
    c.ok(np.array_equal(gp, s.pts), 'global positions equal the points', form=name)
    c.sig(s.key(), name)
    c.note(form=name, mesh=s.describe())

def case_deck_basic(c):
    s = gen.mesh(c.rng)
    if c.rng.random() < .3:
        s.pts[:, 2] = c.rng.normal(size=s.n)*s.size()
    fmt = 'large' if c.rng.random() < .3 and max(s.nids) < 10**8 else None
    m = gen.build_deck(s, os.path.join(c.tmp, 'x.bdf'), fmt=fmt, rng=c.rng if c.rng.random() < .6 else None)
    if fmt:
        exp = np.array([[float(gen.num(v, 16)) for v in r] for r in s.pts])
    else:
        exp = s.pts
    got = np.array([m.nodes[i].xyz for i in s.nids])
    c.ok(np.array_equal(got, exp), 'basic GRIDs keep their coordinates', got=got[:3], expected=exp[:3])
    c.sig(s.key(), fmt)
    c.note(fmt=fmt, mesh=s.describe())

def rot(rng, plane=False):
    if plane:
        a = rng.uniform(0, 2*np.pi)
        return np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1.]])
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if np.linalg.det(q) < 0:
        q[0] *= -1
    return q           # rows: axes of the local system in the parent

def near_axes(rng):
    """Systems (nearly) parallel to the basic one."""
    if rng.random() < .3:
        return np.eye(3)
    v = rng.normal(size=3)*(rng.random(3) < .6)
    a = 10.**rng.uniform(-9, -1)*v
    W = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    q, r = np.linalg.qr(np.eye(3) + W)
    return q*np.sign(np.diag(r))

def to_local(kind, R, o, x):
    q = R @ (x - o)
    if kind == 'R':
        return q
    if kind == 'C':
        return np.array([np.hypot(q[0], q[1]), np.degrees(np.arctan2(q[1], q[0])), q[2]])
    r = np.linalg.norm(q)
    return np.array([r, np.degrees(np.arccos(np.clip(q[2]/r, -1, 1))) if r else 0., np.degrees(np.arctan2(q[1], q[0]))])

def local_deck(c, s, plane_only=False):
    """Coordinates of every node given in a random system; returns (coords, cards)."""
    rng = c.rng
    L = s.size()
    mid = s.pts[s.used()].mean(axis=0)
    cards, systems = [], [('', None)]
    for cid in rng.choice(np.arange(2, 400), 3, replace=False).tolist():
        kind = str(rng.choice(['R', 'C', 'S']))
        R = rot(rng, plane=bool(rng.random() < .4)) if rng.random() < .75 else near_axes(rng)
        o = mid + rng.normal(size=3)*L
        if rng.random() < .15:
            o = rng.normal(size=3)*L*float(rng.choice([0, 1e-7, 1e-3]))
        a, b = o + R[2]*L, o + R[0]*L*2 + R[2]*L*.3
        cards.append('CORD2%s,%d,,%s,%s,%s,' % (kind, cid, ','.join(gen.num(v) for v in o), ','.join(gen.num(v) for v in a[:2]), gen.num(a[2])))
        cards[-1] = 'CORD2%s,%d,,%s,%s' % (kind, cid, ','.join(gen.num(v) for v in o), ','.join(gen.num(v) for v in a))
        cards.append(',%s' % ','.join(gen.num(v) for v in b))
        systems.append((cid, (kind, R, o)))
    # one chained rectangular system, defined in a rectangular parent
    base = [x for x in systems[1:] if x[1][0] == 'R']
    if base:
        pc, (_, Rp, op) = base[0]
        Rl, ol = rot(rng), rng.normal(size=3)*L
        a, b = ol + Rl[2]*L, ol + Rl[0]*L
        cid = 777
        cards.append('CORD2R,%d,%d,%s,%s' % (cid, pc, ','.join(gen.num(v) for v in ol), ','.join(gen.num(v) for v in a)))
        cards.append(',%s' % ','.join(gen.num(v) for v in b))
        systems.append((cid, ('R', Rl @ Rp, op + Rp.T @ ol)))
    coords = []
    one = systems[int(rng.integers(1, len(systems)))] if rng.random() < .3 else None
    for i in range(s.n):
        cid, sysd = one or systems[int(rng.integers(len(systems)))]
        coords.append((cid, s.pts[i] if sysd is None else to_local(*sysd, s.pts[i])))
    return coords, cards

def case_deck_local(c):
    s = gen.mesh(c.rng)
    if c.rng.random() < .3:
        s.pts[:, 2] = c.rng.normal(size=s.n)*s.size()
    coords, cards = local_deck(c, s)
    nids = list(s.nids)
    if c.rng.random() < .25:        # CORD1R: system carried by three GRIDs of the deck
        u = s.used()
        t = s.tris[int(c.rng.integers(len(s.tris)))]
        g1, g2, g3 = (s.pts[i] for i in t)
        z = g2 - g1; z = z/np.linalg.norm(z)
        y = np.cross(z, g3-g1); y /= np.linalg.norm(y)
        R = np.array([np.cross(y, z), y, z])
        cards.append('CORD1R,900,%d,%d,%d' % tuple(nids[i] for i in t))
        for i in range(s.n):
            if i not in t and c.rng.random() < .5:
                coords[i] = (900, R @ (s.pts[i]-g1))
    if c.rng.random() < .3:         # a GRDSET that changes no position
        cid = ''
        if all(x[0] != '' for x in coords):
            cid = str(c.rng.choice([x[0] for x in coords]))
        cards.append('GRDSET,,%s,,,,,%s' % (cid or c.rng.choice(['', '0']), c.rng.choice(['', '6', '126'])))
        c.stats['decks with GRDSET'] += 1
    m = gen.build_deck(s, os.path.join(c.tmp, 'x.bdf'), coords=coords, extra=cards, rng=c.rng if c.rng.random() < .5 else None)
    tol = 1e-9*(s.size() + np.abs(s.pts).max())
    got = np.array([m.nodes[i].xyz for i in s.nids])
    c.ok(np.abs(got - s.pts).max() <= tol, 'local GRIDs are placed by their system', err=float(np.abs(got-s.pts).max()), systems=[x[0] for x in coords][:20])
    gp = np.array([m.nodes[i].get_position() for i in s.nids])
    c.ok(np.abs(gp - s.pts).max() <= tol, 'global positions agree', err=float(np.abs(gp-s.pts).max()))
    for k, t in enumerate(s.tris):
        mid = np.mean(m.elements[s.eids[k]].get_node_positions(), axis=0)
        if not c.ok(np.abs(mid - s.pts[t].mean(axis=0)).max() <= tol, 'element positions agree'):
            break
    c.sig(s.key(), [x[0] for x in coords])
    c.stats['local GRIDs'] += sum(1 for x in coords if x[0] != '')
    c.note(systems=[x.split(',')[0] for x in cards if x.startswith('CORD')], mesh=s.describe())

def case_routes(c):
    """Matrices do not depend on the route (arrays, basic deck, local deck)."""
    rng = c.rng
    s = gen.mesh(rng, scale=float(rng.choice([1., 10.])))
    form = str(rng.choice(['array3', 'list3', 'array2']))
    form = 'array3' if s.pts[:, 2].any() else form
    m1 = gen.build_delaunay(s, form)
    coords, cards = local_deck(c, s)
    m2 = gen.build_deck(s, os.path.join(c.tmp, 'a.bdf'))
    m3 = gen.build_deck(s, os.path.join(c.tmp, 'b.bdf'), coords=coords, extra=cards, rng=c.rng if c.rng.random() < .5 else None)
    n1, t1 = list(m1.nodes.values()), list(m1.elements.values())
    mode, props = gen.assign(rng, s, n1, t1)
    d = rng.normal(size=(s.n, 5))
    a = api()
    res = []
    for m, nodes, trias in ((m1, n1, t1),) + tuple((m, [m.nodes[i] for i in s.nids], [m.elements[i] for i in s.eids]) for m in (m2, m3)):
        for it, p in zip(nodes if mode else trias, props):
            it.prop = p
        k = a.calc_k0(m, mode)
        idx = np.array([int(n.index) for n in nodes])
        dof = (5*idx[:, None] + np.arange(5)).ravel()
        ks = a.add_k0s(np.zeros_like(k), m, mode, method=str(gen.METHODS[c.index % 2]), alpha=.3)
        v = np.zeros(5*s.n); v[dof] = d.ravel()
        g = a.calc_kG(v, m, mode)
        res.append([x[np.ix_(dof, dof)] for x in (k, ks, g)])
    sn = ref.Snap.of(s.pts, s.tris, props if mode else None, None if mode else props)
    _, S = ref.kG(sn, mode, d.ravel(), parts=True)
    for r, nm in ((res[1], 'basic deck'), (res[2], 'local deck')):
        for x, y, w in zip(r, res[0], ('k0', 'k0s', 'kG')):
            sc = ref_scale(y) if w != 'kG' else np.maximum(S, 1e-6*S.max())
            c.close(x, y, '%s of the %s equals that of the arrays' % (w, nm), tol=1e-6, scale=sc)
    c.sig(s.key(), mode)
    c.note(mesh=s.describe())

def case_ownership(c):
    rng = c.rng
    s = gen.mesh(rng)
    dim3 = bool(s.pts[:, 2].any()) or rng.random() < .6
    P = s.pts.copy() if dim3 else s.pts[:, :2].copy()
    if rng.random() < .4:
        P = [r for r in P]
    keep = np.array(P)
    tri = gen.as_tri(s.tris.copy())
    tkeep = tri.simplices.copy()
    m = api().read_delaunay(P, tri)
    nodes = list(m.nodes.values())
    mode, props = gen.assign(rng, s, nodes, list(m.elements.values()))
    for n in nodes:                     # the user moves mesh nodes in place
        n.xyz[:2] += .01*s.size()*rng.normal(size=2)
    c.ok(np.array_equal(np.array(P), keep), "moving mesh nodes leaves the caller's points alone")
    moved = np.array([n.xyz for n in nodes])
    if isinstance(P, list):
        for r in P:
            r += 99*s.size()
    else:
        P += 99*s.size()
    tri.simplices[:] = 0
    c.ok(np.array_equal(np.array([n.xyz for n in nodes]), moved), "changing the caller's points leaves the mesh alone")
    c.ok([sorted(e.node_ids) for e in m.elements.values()] == [sorted(nodes[i].nid for i in t) for t in tkeep], "changing the caller's triangulation leaves the mesh alone")
    watch_k0(c, what='k0 of the owned coordinates', tol=1e-6)
    sp = s.copy(); sp.pts = moved
    if (gen.quality(moved, s.tris)[0] > 1e-3).all() and (np.sign(sp.areas()) == np.sign(s.areas())).all():
        api().calc_k0(m, mode)
    # two meshes from the same array do not share coordinates
    Q = s.pts.copy()
    ma, mb = api().read_delaunay(Q, gen.as_tri(s.tris)), api().read_delaunay(Q, gen.as_tri(s.tris))
    for n in ma.nodes.values():
        n.xyz += 1.
    c.ok(np.array_equal(np.array([n.xyz for n in mb.nodes.values()]), s.pts), 'meshes read from the same array are independent')
    c.sig(s.key(), dim3, isinstance(P, list))
    c.note(mesh=s.describe())
