"""C03: refusals, and no refusal of valid input."""
import os, types
import numpy as np
from . import gen, ref
from .common import *
RULE = ('one defect injected at a random place of an otherwise valid mesh (foreign element type in a deck, third triangle on an edge, missing property of one '
        'node/triangle in each mode, wrong method name) and controls that look similar but are valid; distinct by mesh, defect and place')
KINDS = [('element', 3), ('valence', 2), ('missing', 4), ('method', 2), ('valid', 4), ('default_system', .7)]
NEED_EVENTS = ['read_mesh', 'read_delaunay', 'calc_k0', 'add_k0s']
MIN_CASES = 100

FOREIGN = [('CQUAD4', 'CQUAD4,{e},1,{n0},{n1},{n2},{n3}'), ('CTRIA6', 'CTRIA6,{e},1,{n0},{n1},{n2},{n3},{n4},{n5}'),
           ('CROD', 'CROD,{e},2,{n0},{n1}'), ('CBAR', 'CBAR,{e},3,{n0},{n1},0.,0.,1.'),
           ('CTETRA', 'CTETRA,{e},4,{n0},{n1},{n2},{n3}'), ('CELAS2', 'CELAS2,{e},1000.,{n0},1,{n1},1'),
           ('CSHEAR', 'CSHEAR,{e},5,{n0},{n1},{n2},{n3}')]
PROPS = ['PROD,2,1,1.', 'PBAR,3,1,1.,1.,1.,1.', 'PSOLID,4,1', 'PSHEAR,5,1,.01']

def refused(c, fn, exc, what, **data):
    try:
        r = fn()
    except Exception as e:
        return c.ok(isinstance(e, exc), what, got=repr(e)[:200], expected=exc.__name__, **data)
    return c.ok(False, what, got='no refusal, returned %s' % type(r).__name__, expected=exc.__name__, **data)

def case_element(c):
    rng = c.rng
    s = gen.mesh(rng, number=str(rng.choice(['seq', 'shuffle', 'sparse'])))
    while s.n < 6:
        s = gen.mesh(rng, number='seq')
    name, card = FOREIGN[c.index//3 % len(FOREIGN)]
    ns = rng.choice(s.nids, 6, replace=False)
    used = set(s.eids)
    e = int(rng.choice([0, max(used)+1 if max(used) < 99999999 else 0, 10**6+7]))
    while e in used or e == 0:
        e = int(rng.integers(1, 10**6))
    row = card.format(e=e, **{'n%d' % i: int(n) for i, n in enumerate(ns)})
    txt = gen.deck(s, extra=[])
    lines = txt.split('\n')
    first = next(i for i, l in enumerate(lines) if l.startswith('CTRIA3'))
    lines.insert(int(rng.integers(first, first + len(s.tris) + 1)), row)
    lines[first:first] = PROPS
    path = os.path.join(c.tmp, 'x.bdf')
    open(path, 'w').write('\n'.join(lines))
    refused(c, lambda: api().read_mesh(path), NotImplementedError, 'foreign element is refused: ' + name, card=row)
    c.sig(s.key(), name)
    c.note(card=row, mesh=s.describe())
    c.stats['foreign ' + name] += 1

def case_default_system(c):
    """GRIDs that leave their coordinate system to a GRDSET: placed by it, or refused."""
    rng = c.rng
    s = gen.mesh(rng)
    L = s.size()
    # the system: turned about z, shifted
    f = rng.uniform(.2, 6.); o = s.pts[s.used()].mean(axis=0) + rng.uniform(.2, 2, 3)*L
    R = np.array([[np.cos(f), np.sin(f), 0], [-np.sin(f), np.cos(f), 0], [0, 0, 1.]])
    a, b = o + R[2]*L, o + R[0]*L
    cards = ['CORD2R,12,,%s,%s' % (','.join(gen.num(v) for v in o), ','.join(gen.num(v) for v in a)), ',%s' % ','.join(gen.num(v) for v in b), 'GRDSET,,12']
    loc = (s.pts - o) @ R.T
    part = rng.random() < .5
    coords = [(12 if part and rng.random() < .7 else '', q) for q in loc]
    if all(x[0] != '' for x in coords):
        coords[0] = ('', loc[0])
    try:
        m = gen.build_deck(s, os.path.join(c.tmp, 'x.bdf'), coords=coords, extra=cards)
    except NotImplementedError:
        c.ok(True, 'a default coordinate system is applied or refused')
        c.stats['default systems refused'] += 1
    else:
        got = np.array([m.nodes[i].xyz for i in s.nids])
        c.ok(np.abs(got - s.pts).max() <= 1e-9*(L + np.abs(s.pts).max()), 'a default coordinate system is applied or refused', err=float(np.abs(got-s.pts).max()))
    c.sig(s.key(), f, [x[0] for x in coords])
    c.note(mesh=s.describe(), blank=sum(x[0] == '' for x in coords))

def case_valence(c):
    rng = c.rng
    s = gen.mesh(rng, unused=0)
    edges = s.edges()
    ks = list(edges)
    a, b = ks[int(rng.integers(len(ks)))]
    need = 3 - len(edges[(a, b)]) + int(rng.integers(0, 2))
    pts, tris = s.pts.tolist(), s.tris.tolist()
    for k in range(need):
        v = rng.normal(size=2)*s.size()
        pts.append([.5*(s.pts[a, 0]+s.pts[b, 0]) + v[0], .5*(s.pts[a, 1]+s.pts[b, 1]) + v[1], s.pts[a, 2]])
        tris.insert(int(rng.integers(0, len(tris)+1)), [a, b, len(pts)-1])
    s2 = gen.Spec(pts, tris, gen.ids(rng, 'sparse', len(pts)), gen.ids(rng, 'shuffle', len(tris)))
    if s2.edges()[(a, b)].__len__() < 3:
        return
    m, nodes, trias = gen.build(rng, s2, c.tmp)
    mode, _ = gen.assign(rng, s, nodes, trias)
    refused(c, lambda: api().calc_k0(m, mode), NotImplementedError, 'edge with more than two triangles is refused', n=len(s2.edges()[(a, b)]))
    c.sig(s2.key(), mode)
    c.note(mesh=s2.describe(), n_on_edge=len(s2.edges()[(a, b)]))

def case_missing(c):
    rng = c.rng
    p = Problem(c)
    a = api()
    if rng.random() < .3:               # after a successful analysis, too
        a.calc_k0(p.mesh, p.mode)
    if p.mode:
        u = p.spec.used()
        i = [u[0], u[-1], u[int(rng.integers(len(u)))]][int(rng.integers(3))]
        item = p.nodes[i]
    else:
        i = [0, len(p.trias)-1, int(rng.integers(len(p.trias)))][int(rng.integers(3))]
        item = p.trias[i]
    old = item.prop
    item.prop = None
    if rng.random() < .5:               # the other mode being complete does not help
        for it in (p.trias if p.mode else p.nodes):
            it.prop = old
    refused(c, lambda: a.calc_k0(p.mesh, p.mode), ValueError, 'missing property is refused: ' + ('node' if p.mode else 'element'), item=i)
    item.prop = old
    k = a.calc_k0(p.mesh, p.mode)       # accepted once assigned
    c.close(k, ref.k0(p.snap(), p.mode), 'accepted once the property is assigned', scale=ref_scale(k))
    describe(c, p, item=i)

BAD = ['', 'cell', 'Cell-based', 'cell_based', 'cell-based ', 'edge', 'edge_based', 'EDGE-BASED', None, 'node-based', 'cell-based-nosmoothing',
       0, 'cell-based-no-smoothing ', 'edge-base', 'edge-based-no-smoothing', 'None', 'cell-based-smoothing', 'e', 'based', True, ' edge-based', 'cell-based-no-smooth']

def case_method(c):
    rng = c.rng
    p = Problem(c)
    a = api()
    k = a.calc_k0(p.mesh, p.mode)
    bad = BAD[(c.index//5) % len(BAD)]
    before = k.copy()
    kw = dict(alpha=gen.alpha_of(rng)) if rng.random() < .5 else {}
    refused(c, lambda: a.add_k0s(k, p.mesh, p.mode, bad, **kw) if rng.random() < .5 else a.add_k0s(k, p.mesh, p.mode, method=bad, **kw), ValueError, 'unknown method is refused', method=repr(bad))
    c.ok(np.array_equal(k, before), 'matrix unchanged after the refusal', method=repr(bad))
    describe(c, p, method=repr(bad))

class Falsy(object):
    """A property that lists its plies, of which it has none."""
    def __init__(self, p):
        for k in ('A', 'B', 'D', 'E', 'h', 'scf_k13', 'scf_k23'):
            setattr(self, k, getattr(p, k))
    def __len__(self):
        return 0

def case_valid(c):
    """Controls: complete and valid input is accepted and gives the right matrices."""
    rng = c.rng
    p = Problem(c)
    a = api()
    how = int(rng.integers(4))
    if how == 0:            # the other mode has no properties at all (default)
        pass
    elif how == 1 and p.mode:      # unused nodes without property
        used = set(p.spec.used())
        for i, n in enumerate(p.nodes):
            if i not in used:
                n.prop = None
    elif how == 2:          # one of the other kind missing
        o = p.trias if p.mode else p.nodes
        for it in o:
            it.prop = (p.nodes if p.mode else p.trias)[0].prop
        o[int(rng.integers(len(o)))].prop = None
    else:                   # a property is whatever has the attributes, true or not
        for it in p.nodes if p.mode else p.trias:
            if it.prop is not None:
                it.prop = Falsy(it.prop)
    method = str(rng.choice(gen.METHODS))
    try:
        k = a.calc_k0(p.mesh, p.mode)
        ks = np.zeros_like(k)
        a.add_k0s(ks, p.mesh, p.mode, method=method)
        a.calc_kG(rng.normal(size=5*p.n), p.mesh, p.mode)
    except Exception as e:
        c.ok(False, 'valid input is not refused', error=repr(e)[:200], how=how, method=method)
        return
    c.ok(True, 'valid input is not refused')
    c.close(k, ref.k0(p.snap(), p.mode), 'and assembled correctly', scale=ref_scale(k))
    describe(c, p, how=how)
