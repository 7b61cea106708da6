"""C06: dependence of the matrices on the property field."""
import types
import numpy as np
from . import gen, ref
from .common import *
RULE = ('pairs/triples of analyses of one mesh under related property fields (scaled, added, uniform in both modes, one item changed, other mode poisoned); '
        'the monitor relates the returned matrices; distinct by mesh, mode and relation')
KINDS = [('linear', 3), ('uniform', 2), ('own_mode', 2), ('local', 3), ('current', 2), ('cell_local', 1)]
NEED_EVENTS = ['calc_k0', 'calc_kG', 'add_k0s']
MIN_CASES = 60

def put(items, props):
    for it, q in zip(items, props):
        it.prop = q

def setup(c, **kw):
    p = Problem(c, **kw)
    items = p.nodes if p.mode else p.trias
    return p, items, [it.prop for it in items]

def near(p, q, e):
    return types.SimpleNamespace(**{k: (1-e)*getattr(p, k) + e*getattr(q, k) for k in ('A', 'B', 'D', 'E', 'h', 'scf_k13', 'scf_k23')})

def case_linear(c):
    rng, a = c.rng, api()
    p, items, P = setup(c)
    if rng.random() < .4:       # nearly uniform: neighbours differ by little
        e = 10.**rng.uniform(-5, -1)
        P = [near(P[0], q, e*rng.random()) for q in [gen.similar(rng, P[0], p.spec.size()) for _ in P]]
    elif rng.random() < .4:     # neighbours differ in one respect
        P = [gen.twin(rng, P[0]) for _ in P]
    Q = [gen.similar(rng, P[0], p.spec.size())]*len(P) if rng.random() < .3 else [gen.similar(rng, P[0], p.spec.size()) for _ in P]
    s = float(rng.choice([2., -1., 1e-3, 7.3, 1e6]))
    d = rng.normal(size=5*p.n)
    K, G = {}, {}
    for nm, F in (('p', P), ('q', Q), ('p+q', [gen.prop_add(x, y) for x, y in zip(P, Q)]), ('s*p', [gen.prop_scale(x, s) for x in P])):
        put(items, F)
        K[nm] = a.calc_k0(p.mesh, p.mode)
        G[nm] = a.calc_kG(d, p.mesh, p.mode)
    put(items, P)
    sk = ref_scale(K['p']) + ref_scale(K['q'])
    gs = ref.kG(p.snap(), p.mode, d, parts=True)[1]
    put(items, Q); gs = gs + ref.kG(p.snap(), p.mode, d, parts=True)[1]
    gs = np.maximum(gs, 1e-6*gs.max())
    c.close(K['p+q'], K['p']+K['q'], 'k0 is additive in the properties', tol=1e-8, scale=sk)
    c.close(K['s*p'], s*K['p'], 'k0 scales with the properties', tol=1e-8, scale=abs(s)*sk)
    c.close(G['p+q'], G['p']+G['q'], 'kG is additive in the properties', tol=1e-8, scale=gs)
    c.close(G['s*p'], s*G['p'], 'kG scales with the properties', tol=1e-8, scale=abs(s)*gs)
    describe(c, p, relation='linear', s=s)

def case_uniform(c):
    rng, a = c.rng, api()
    p = Problem(c, uniform=True, uncoupled=bool(rng.random() < .5))
    q = (p.nodes if p.mode else p.trias)[0].prop
    gen.assign_uniform(p.spec, p.nodes, p.trias, q)
    d = rng.normal(size=5*p.n)
    k1, k2 = a.calc_k0(p.mesh, True), a.calc_k0(p.mesh, False)
    c.close(k1, k2, 'uniform k0 is the same per node and per element', tol=1e-8, scale=ref_scale(k1))
    # index may be assigned anew by each call; both calls see the same mesh
    al, ao = gen.alpha_of(rng), bool(rng.integers(2))
    for m in gen.METHODS:
        s1, s2 = (a.add_k0s(np.zeros_like(k1), p.mesh, mode, method=m, alpha=al, maxl_from_area=ao) for mode in (True, False))
        c.close(s1, s2, 'uniform k0s is the same per node and per element: ' + m, tol=1e-8, scale=ref_scale(s1))
    g1, g2 = a.calc_kG(d, p.mesh, True), a.calc_kG(d, p.mesh, False)
    S = ref.kG(p.snap(), True, d, parts=True)[1]
    c.close(g1, g2, 'uniform kG is the same per node and per element', tol=1e-8, scale=np.maximum(S, 1e-6*S.max()))
    describe(c, p, relation='uniform')

def case_own_mode(c):
    """Whatever the other mode carries (nothing, other values, NaN) is not read."""
    rng, a = c.rng, api()
    p, items, P = setup(c)
    others = p.trias if p.mode else p.nodes
    d = rng.normal(size=5*p.n)
    m = str(rng.choice(gen.METHODS))
    al, ao = gen.alpha_of(rng), bool(rng.integers(2))
    def go():
        k = a.calc_k0(p.mesh, p.mode)
        s = a.add_k0s(np.zeros_like(k), p.mesh, p.mode, method=m, alpha=al, maxl_from_area=ao)
        return k, s, a.calc_kG(d, p.mesh, p.mode)
    put(others, [None]*len(others))
    base = go()
    bad = np.full((3, 3), np.nan)
    poison = [types.SimpleNamespace(A=bad, B=bad, D=bad, E=bad[:2, :2], h=np.nan, scf_k13=np.nan, scf_k23=np.nan),
              gen.similar(rng, P[0], 1.)][int(rng.integers(2))]
    put(others, [poison]*len(others))
    S = ref.kG(p.snap(), p.mode, d, parts=True)[1]
    for x, y, nm, sc in zip(go(), base, ('k0', 'k0s ' + m, 'kG'), (ref_scale(base[0]), ref_scale(base[1]), np.maximum(S, 1e-6*S.max()))):
        c.close(x, y, nm + ' reads only its own assignment', tol=1e-9, scale=sc)
    # and the own assignment is the one that is used
    c.close(base[0], ref.k0(p.snap(), p.mode), 'k0 uses the selected assignment', scale=ref_scale(base[0]))
    describe(c, p, relation='own mode', method=m)

def touched(s, mode, item):
    """Pairs of point positions whose entries may change."""
    ok = set()
    for (a, b), ts in s.edges().items():
        corners = {int(n) for t in ts for n in s.tris[t]}
        if (item in corners) if mode else (item in ts):
            ok |= {(i, j) for i in corners for j in corners}
    return ok

def case_local(c, cell=False):
    rng, a = c.rng, api()
    p, items, P = setup(c, big=rng.random() < .3)
    i = int(rng.choice(p.spec.used())) if p.mode else int(rng.integers(len(P)))
    d = rng.normal(size=5*p.n)
    m = str(rng.choice(gen.METHODS))
    def go():
        k = a.calc_k0(p.mesh, p.mode)
        s = a.add_k0s(np.zeros_like(k), p.mesh, p.mode, method=m, alpha=.1)
        return p.by_point(k), p.by_point(s), p.by_point(a.calc_kG(d_now(), p.mesh, p.mode))
    D = rng.normal(size=(p.n, 5))
    d_now = lambda: p.vec(D)
    b = go()
    items[i].prop = gen.prop_scale(gen.similar(rng, P[i], p.spec.size()), 3.)
    n = go()
    allow = touched(p.spec, p.mode, i)
    M = np.zeros((p.n, p.n), bool)
    for x, y in allow:
        M[x, y] = True
    M5 = np.repeat(np.repeat(M, 5, 0), 5, 1)
    for x, y, nm in zip(n, b, ('k0', 'k0s ' + m, 'kG')):
        sc = ref_scale(y) if nm != 'kG' else np.full(y.shape, np.abs(y).max())
        out = np.abs(x-y) > 1e-9*sc
        bad = out & ~M5
        c.ok(not bad.any(), nm + ' changes only near the changed item', where=np.argwhere(bad)[:3], item=i)
        c.ok((np.abs(x-y) > (1e-4 if nm != 'kG' else 1e-8)*sc)[M5].any(), nm + ' does change with the item', item=i)
    describe(c, p, relation='local', item=i, method=m)

def case_cell_local(c):
    """Cell-based shear: only the triangles carrying the item change."""
    rng, a = c.rng, api()
    p, items, P = setup(c)
    i = int(rng.choice(p.spec.used())) if p.mode else int(rng.integers(len(P)))
    m = str(rng.choice(gen.METHODS[:2]))
    def go():
        return p.by_point(a.add_k0s(np.zeros((5*p.n, 5*p.n)), p.mesh, p.mode, method=m, alpha=.1))
    a.calc_k0(p.mesh, p.mode)
    b = go()
    items[i].prop = gen.prop_scale(P[i], 2.)
    n = go()
    M = np.zeros((p.n, p.n), bool)
    for t, tr in enumerate(p.spec.tris):
        if (i in tr) if p.mode else t == i:
            M[np.ix_(tr, tr)] = True
    M5 = np.repeat(np.repeat(M, 5, 0), 5, 1)
    bad = (np.abs(n-b) > 1e-9*ref_scale(b)) & ~M5
    c.ok(not bad.any(), 'k0s %s changes only in the triangles of the changed item' % m, where=np.argwhere(bad)[:3], item=i)
    describe(c, p, relation='cell local', item=i, method=m)

def case_current(c):
    """The assignments at the time of the call are used (reassigned and edited in place)."""
    rng, a = c.rng, api()
    watch_k0(c, what='k0 uses the current assignments')
    watch_kG(c, what='kG uses the current assignments')
    watch_k0s(c, METH[:2], what='k0s uses the current assignments')
    p, items, P = setup(c)
    d = rng.normal(size=5*p.n)
    for step in range(3):
        k = a.calc_k0(p.mesh, p.mode)
        for m in METH[:2]:
            a.add_k0s(np.zeros_like(k), p.mesh, p.mode, method=m, alpha=.1, maxl_from_area=bool(rng.integers(2)))
        a.calc_kG(d, p.mesh, p.mode)
        how = int(rng.integers(3))
        if how == 0:
            put(items, [gen.similar(rng, P[0], p.spec.size()) for _ in items])
        elif how == 1:
            q = items[int(rng.integers(len(items)))]
            q.prop = gen.prop_scale(q.prop, 5.)
        else:                           # the same property objects with new matrices
            for q in {id(it.prop): it.prop for it in items}.values():
                try:
                    q.A = q.A*2; q.D = q.D*1.5; q.B = q.B*.5; q.E = q.E*3; q.h = q.h*1.2
                except AttributeError:
                    pass
        # k0s and kG right after the change, without recalculating k0
        if rng.random() < .5:
            a.calc_kG(d, p.mesh, p.mode)
            a.add_k0s(np.zeros_like(k), p.mesh, p.mode)
    describe(c, p, relation='current')
