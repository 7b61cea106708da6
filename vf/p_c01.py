"""C01: topology built by both readers, judged on the event (arguments vs. returned mesh)."""
import os
import numpy as np
from . import gen
from .common import *
RULE = ('random connectivities (valid plane meshes, holes, disjoint parts, unused points, edges shared by 3+ triangles, curved 3D surfaces, '
        'scrambled/sparse/huge ids, mixed orientation, real Delaunay objects, several deck formats) through both readers; every returned object is '
        'walked completely; distinct by points+connectivity+ids')
KINDS = [('delaunay', 3), ('deck', 3), ('real_delaunay', 1), ('nonmanifold', 1), ('big', .3), ('surface', 1), ('after_analysis', 1), ('repo_tests', .1)]
NEED_EVENTS = ['read_mesh', 'read_delaunay']
MIN_CASES = 80

def verify(c, mesh, tris_ids, nids=None, eids=None):
    """tris_ids: list of 3 node ids per triangle (in mesh numbering); eids: expected ids or None."""
    nodes, els, edges = mesh.nodes, mesh.elements, mesh.edges
    ok = c.ok
    ok(all(k == n.nid for k, n in nodes.items()), 'node table keyed by node id')
    if nids is not None:
        ok(sorted(nodes) == sorted(nids), 'one node per input point', got=sorted(nodes)[:30])
    ok(len(els) == len(tris_ids), 'one element per triangle', got=len(els), expected=len(tris_ids))
    ok(all(k == e.eid for k, e in els.items()), 'element table keyed by element id')
    want = sorted(tuple(sorted(t)) for t in tris_ids)
    got = sorted(tuple(sorted(e.node_ids)) for e in els.values())
    ok(want == got, 'same corner nodes', got=got[:10], expected=want[:10])
    if eids is not None:
        ok({k: tuple(sorted(t)) for k, t in zip(eids, tris_ids)} == {k: tuple(sorted(e.node_ids)) for k, e in els.items()},
           'each element id keeps its corners')
    tri = {}                                  # truth, from the input
    for k, e in els.items():
        tri[k] = tuple(sorted(e.node_ids))
    pairs = {}
    for k, t in tri.items():
        for p in ((t[0], t[1]), (t[0], t[2]), (t[1], t[2])):
            pairs.setdefault(p, []).append(k)
    keys = [tuple(k) for k in edges]
    ok(sorted(keys) == sorted(pairs), 'edges are exactly the distinct corner pairs', extra=sorted(set(keys)-set(pairs))[:5],
       missing=sorted(set(pairs)-set(keys))[:5])
    for k, e in edges.items():
        if k not in pairs:
            continue
        ends = [e.n1.nid, e.n2.nid]
        if not (ok(sorted(ends) == list(k), 'edge joins the nodes of its key', key=k, ends=ends)
                and ok(nodes.get(ends[0]) is e.n1 and nodes.get(ends[1]) is e.n2, 'edge refers to the mesh nodes', key=k)
                and ok(sorted(t.eid for t in e.trias) == sorted(pairs[k]), 'edge lists its triangles', key=k,
                       got=[t.eid for t in e.trias], expected=pairs[k])
                and ok(all(els.get(t.eid) is t for t in e.trias), 'edge refers to the mesh elements', key=k)):
            break
        if hasattr(e, 'nodes'):
            ok(set(n.nid for n in e.nodes) == set(k) and len(e.nodes) == 2, 'edge.nodes', key=k)
        if hasattr(e, 'node_ids'):
            ok(sorted(e.node_ids) == list(k), 'edge.node_ids', key=k)
    byid = {id(e): k for k, e in edges.items()}
    ok(len(byid) == len(edges), 'distinct edge objects')
    for k, e in els.items():
        t = tri[k]
        ks = [byid.get(id(x)) for x in e.edges]
        if not (ok(len(ks) == 3 and None not in ks and set(ks) == {(t[0], t[1]), (t[0], t[2]), (t[1], t[2])}, 'triangle lists its edges', eid=k, got=ks)
                and ok(len(e.nodes) == 3 and all(nodes.get(n.nid) is n for n in e.nodes), 'triangle refers to the mesh nodes', eid=k)
                and ok([n.nid for n in e.nodes] == list(e.node_ids), 'node references match node ids', eid=k)
                and ok(e.prop is None, 'element without property', eid=k)):
            break
    inc = {n: set() for n in nodes}
    ine = {n: set() for n in nodes}
    for k, t in tri.items():
        for n in t:
            inc[n].add(k)
    for p in pairs:
        ine[p[0]].add(p); ine[p[1]].add(p)
    for k, n in nodes.items():
        if not (ok(set(n.trias) == inc[k] and len(list(n.trias)) == len(inc[k]), 'node lists its triangles', nid=k, got=sorted(n.trias)[:10], expected=sorted(inc[k])[:10])
                and ok(len(list(n.edges)) == len(ine[k]) and set(byid.get(id(e)) for e in n.edges) == ine[k], 'node lists its edges', nid=k)
                and ok(n.prop is None, 'node without property', nid=k)):
            break
    c.stats['edges walked'] += len(edges)

def on_delaunay(c):
    def post(ev):
        if ev.exc is None and ev.args is not None:
            pts, tri = ev.args['points'], ev.args['tri']
            nn = len(pts)
            order = list(ev.ret.nodes)
            if c.ok(len(order) == nn, 'one node per input point', got=len(order), expected=nn):
                ts = np.asarray(tri.simplices).tolist()
                c.ok(order == list(range(1, nn+1)) and list(ev.ret.elements) == list(range(1, len(ts)+1)), 'nodes and elements are counted from 1', nodes=order[:9], elements=list(ev.ret.elements)[:9])
                c.ok(all(sorted(e.node_ids) == sorted(i+1 for i in t) for e, t in zip(ev.ret.elements.values(), ts)), 'elements are in input order')
                verify(c, ev.ret, [[order[i] for i in t] for t in np.asarray(tri.simplices).tolist()])
    c.mon.subscribe('read_delaunay', post=post)

def sig(c, s):
    c.sig(s.key())
    c.note(mesh=s.describe())

def case_delaunay(c):
    on_delaunay(c)
    s = gen.mesh(c.rng)
    gen.build_delaunay(s, str(c.rng.choice(['array3', 'list3', 'array2', 'list2'])))
    sig(c, s)

def case_deck(c, s=None):
    s = s or gen.mesh(c.rng)
    m = gen.build_deck(s, os.path.join(c.tmp, 'x.bdf'), comments=bool(c.rng.integers(2)), rng=c.rng if c.rng.random() < .6 else None)
    verify(c, m, [[s.nids[i] for i in t] for t in s.tris], s.nids, s.eids)
    sig(c, s)

def case_real_delaunay(c):
    from scipy.spatial import Delaunay
    on_delaunay(c)
    pts = c.rng.uniform(-1, 1, (int(c.rng.integers(3, 60)), 2))
    if c.rng.random() < .3:
        pts = np.round(pts*4)/4
        pts = np.unique(pts, axis=0)
        if len(pts) < 4 or np.linalg.matrix_rank(pts - pts[0]) < 2:
            return
    d = Delaunay(pts)
    api().read_delaunay(pts, d)
    c.sig(pts, d.simplices)
    c.note(points=len(pts), triangles=len(d.simplices))

def case_nonmanifold(c):
    s = gen.mesh(c.rng, unused=0)
    # add triangles on existing edges
    e = list(s.edges())
    pts, tris = s.pts.tolist(), s.tris.tolist()
    for _ in range(int(c.rng.integers(1, 4))):
        a, b = e[int(c.rng.integers(len(e)))]
        pts.append((s.pts[a] + s.pts[b] + c.rng.normal(size=3)*s.size()).tolist())
        tris.append([a, b, len(pts)-1] if c.rng.random() < .5 else [len(pts)-1, b, a])
    s2 = gen.Spec(pts, tris, gen.ids(c.rng, 'sparse', len(pts)), gen.ids(c.rng, 'shuffle', len(tris)), base='nonmanifold')
    on_delaunay(c)
    if c.rng.random() < .5:
        gen.build_delaunay(s2)
        sig(c, s2)
    else:
        case_deck(c, s2)

def case_big(c):
    on_delaunay(c)
    s = gen.mesh(c.rng, kind='large', scale=1.)
    gen.build_delaunay(s)
    case_deck(c, s)

def case_surface(c):
    s = gen.mesh(c.rng)
    s.pts[:, 2] = c.rng.normal(size=s.n)*s.size()
    on_delaunay(c)
    if c.rng.random() < .5:
        gen.build_delaunay(s)
        sig(c, s)
    else:
        case_deck(c, s)

def case_after_analysis(c):
    """Reading again after other meshes were read and analysed in the same process."""
    on_delaunay(c)
    p = Problem(c)
    a = api()
    k = a.calc_k0(p.mesh, p.mode)
    a.add_k0s(k, p.mesh, p.mode)
    tri = gen.as_tri(p.spec.tris)
    pts = p.spec.pts.copy()
    m1 = a.read_delaunay(pts, tri)
    m2 = a.read_delaunay(pts, tri)
    c.ok(not set(map(id, m1.edges.values())) & set(map(id, m2.edges.values())), 'meshes share no edge')
    c.ok(not set(map(id, m1.nodes.values())) & set(map(id, m2.nodes.values())), 'meshes share no node')
    for m in (m1, m2):
        order = list(m.nodes)
        verify(c, m, [[order[i] for i in t] for t in p.spec.tris.tolist()])
    case_deck(c, p.spec)

def case_repo_tests(c):
    from .repotests import run_espim
    on_delaunay(c)
    def post(ev):
        if ev.exc is None:
            verify(c, ev.ret, [list(e.node_ids) for e in ev.ret.elements.values()])
    c.mon.subscribe('read_mesh', post=post)
    run_espim(c)
