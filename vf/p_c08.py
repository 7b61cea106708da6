"""C08: invariance under renumbering, reordering, orientation."""
import numpy as np
from . import gen, ref
from .common import *
RULE = ('each case builds one physical mesh and several representations of it (node/element ids permuted or replaced, points and triangles reordered, corners '
        'rotated or reversed, other reader) and compares all matrices by physical node; distinct by mesh and representation')
KINDS = [('relabel', 5), ('orient', 3), ('reorder', 3), ('big', .5)]
NEED_EVENTS = ['calc_k0', 'calc_kG', 'add_k0s', 'read_mesh', 'read_delaunay']
MIN_CASES = 60

def results(c, spec, nprops, eprops, mode, D, al, ao, route):
    m, nodes, trias = gen.build(c.rng, spec, c.tmp, route)
    for n, q in zip(nodes, nprops or []):
        n.prop = q
    for t, q in zip(trias, eprops or []):
        t.prop = q
    a = api()
    k = a.calc_k0(m, mode)
    idx = np.array([int(n.index) for n in nodes])
    dof = (5*idx[:, None] + np.arange(5)).ravel()
    s = a.add_k0s(np.zeros_like(k), m, mode, method='cell-based', alpha=al, maxl_from_area=ao)
    v = np.zeros(5*spec.n); v[dof] = D.ravel()
    g = a.calc_kG(v, m, mode)
    return [x[np.ix_(dof, dof)] for x in (k, s, g)]

def variant(rng, s, how):
    """Another representation: (spec, node map new->old, tria map new->old)"""
    n, nt = s.n, len(s.tris)
    pn, pt = np.arange(n), np.arange(nt)
    tris = s.tris.copy()
    if how in ('reorder', 'all'):
        pn, pt = rng.permutation(n), rng.permutation(nt)
    if how in ('orient', 'all'):
        tris = np.array([np.roll(t, int(rng.integers(3)))[::int(rng.choice([1, -1]))] for t in tris])
    inv = np.argsort(pn)
    tris = inv[tris][pt]
    nids, eids = [s.nids[i] for i in pn], [s.eids[i] for i in pt]
    if how in ('relabel', 'all'):
        k = str(rng.choice(['seq', 'shuffle', 'sparse', 'huge', 'reversed']))
        nids, eids = gen.ids(rng, k, n), gen.ids(rng, str(rng.choice(['shuffle', 'sparse', 'huge'])), nt)
    return gen.Spec(s.pts[pn], tris, nids, eids, **s.tags), pn, pt

def go(c, hows, **kw):
    rng = c.rng
    s = gen.mesh(rng, orient=str(rng.choice(['ccw', 'mixed'])), **kw)
    m, nodes, trias = gen.build(rng, s, c.tmp, 'delaunay')
    mode, props = gen.assign(rng, s, nodes, trias)
    D = rng.normal(size=(s.n, 5))
    al, ao = gen.alpha_of(rng), bool(rng.integers(2))
    base = results(c, s, props if mode else None, None if mode else props, mode, D, al, ao, 'delaunay')
    sn = ref.Snap.of(s.pts, s.tris, props if mode else None, None if mode else props)
    S = ref.kG(sn, mode, D.ravel(), parts=True)[1]
    scales = [ref_scale(base[0]), ref_scale(base[1]), np.maximum(S, 1e-6*S.max())]
    for how in hows:
        v, pn, pt = variant(rng, s, how)
        q = [props[i] for i in (pn if mode else pt)]
        route = 'deck' if how == 'relabel' else str(rng.choice(['deck', 'delaunay']))
        R = results(c, v, q if mode else None, None if mode else q, mode, D[pn], al, ao, route)
        inv = np.argsort(pn)
        dof = (5*inv[:, None] + np.arange(5)).ravel()
        for x, y, nm, sc in zip(R, base, ('k0', 'cell-based k0s', 'kG'), scales):
            c.close(x[np.ix_(dof, dof)], y, '%s is unchanged under %s' % (nm, how), tol=1e-7, scale=sc, route=route)
        c.sig(v.key(), mode, how)
        c.stats['representations'] += 1
    c.note(mesh=s.describe(), mode=mode, variants=hows)

def case_relabel(c):
    go(c, ['relabel', 'all'])
def case_orient(c):
    go(c, ['orient', 'all'])
def case_reorder(c):
    go(c, ['reorder', 'all'])
def case_big(c):
    go(c, ['all', 'all'], big=True)
