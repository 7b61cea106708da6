"""C07: node numbering and sparsity."""
import numpy as np
from . import gen, ref
from .common import *
RULE = ('random meshes rich in unused points, disjoint parts, corner triangles and scrambled ids; after every call the monitor inspects node.index and the '
        'complete sparsity pattern of the returned matrix; distinct by mesh data')
KINDS = [('any', 5), ('unused', 2), ('big', 1), ('large', .2)]
NEED_EVENTS = ['calc_k0', 'calc_kG', 'add_k0s']
MIN_CASES = 60

def masks(s):
    n = s.n
    cell, edge = np.zeros((n, n), bool), np.zeros((n, n), bool)
    for t in s.tris:
        cell[np.ix_(t, t)] = True
    for ts in s.edges().values():
        u = sorted({int(i) for t in ts for i in s.tris[t]})
        edge[np.ix_(u, u)] = True
    return cell, edge

def case_any(c, **kw):
    rng, a = c.rng, api()
    p = Problem(c, **kw)
    if rng.random() < .5:
        p.mode = not p.mode
        gen.assign(rng, p.spec, p.nodes, p.trias, p.mode)
    watch_k0(c, what='k0 is in the node.index numbering')
    watch_kG(c, what='kG is in the node.index numbering')
    watch_k0s(c, METH[:2], what='k0s is in the node.index numbering')
    k = a.calc_k0(p.mesh, p.mode)
    ix = [n.index for n in p.mesh.nodes.values()]
    c.ok(sorted(int(i) for i in ix) == list(range(p.n)), 'indices are a bijection onto 0..N-1', got=ix[:30])
    c.ok(all(float(i) == int(i) for i in ix), 'indices are integers')
    c.ok(k.shape == (5*p.n, 5*p.n), 'k0 has five dofs per node', got=k.shape)
    cell, edge = masks(p.spec)
    def pattern(K, M, nm):
        B = np.abs(p.by_point(K)).reshape(p.n, 5, p.n, 5).max(axis=(1, 3)) > 0
        bad = B & ~M
        c.ok(not bad.any(), nm + ': coupling only through triangles/edge domains', where=np.argwhere(bad)[:4])
        un = sorted(set(range(p.n)) - set(p.spec.used()))
        c.ok(not B[un].any() and not B[:, un].any(), nm + ': unused nodes have no stiffness', nodes=un)
    pattern(k, edge, 'k0')
    order = list(METH); rng.shuffle(order)
    for m in order:
        s = a.add_k0s(np.zeros_like(k), p.mesh, p.mode, method=m, alpha=gen.alpha_of(rng))
        pattern(s, edge if m == 'edge-based' else cell, m)
    g = a.calc_kG(rng.normal(size=5*p.n), p.mesh, p.mode)
    c.ok(g.shape == k.shape, 'kG has the size of k0', got=g.shape)
    pattern(g, edge, 'kG')
    c.ok([n.index for n in p.mesh.nodes.values()] == ix, 'the numbering stays after the other calculations')
    c.stats['unused nodes'] += p.n - len(p.spec.used())
    describe(c, p)

def case_unused(c):
    case_any(c, unused=int(c.rng.integers(1, 6)), multi=True)
def case_big(c):
    case_any(c, big=True)
def case_large(c):
    case_any(c, kind='large')
