"""C14: Lyly stabilisation factor."""
import types
import numpy as np
from . import gen, ref
from .common import *
from .islands import islands
RULE = ('increments of one mesh at several alphas and both length options are related to each other (single domains: exact ratio; any mesh: sum over domains of '
        'factor times the unstabilised reference) and their quadratic forms compared; thickness fields, stretched and tiny elements included; distinct by mesh, mode, options')
KINDS = [('single', 4), ('field', 4), ('monotone', 3), ('edge', 3), ('slivers', .7), ('both_modes', 1)]
NEED_EVENTS = ['add_k0s']
MIN_CASES = 60
ALPHAS = [0., 1e-4, .05, .08, .2, .6, 1., 7., 1e3]

def alphas(p, n):
    """Usual values, or values for which the factor is of order one in this mesh."""
    rng = p.c.rng
    if rng.random() < .6:
        return rng.choice(ALPHAS, n, replace=False)
    s = p.snap()
    k = int(rng.integers(len(s.area)))
    return 10.**rng.uniform(-3, 3, n)*(float(s.tria_prop(k, p.mode, ('h',))[0])/ref.lmax(s, k))**2

def bare(p, m, al, ao):
    return api().add_k0s(np.zeros((5*p.n, 5*p.n)), p.mesh, p.mode, method=m, alpha=al, maxl_from_area=flag(p.c.rng, ao))

def case_single(c):
    """One triangle: matrix at alpha is the unstabilised one over 1+alpha*l^2/h^2."""
    rng = c.rng
    p = Problem(c, thick=True, kind='tri1', multi=False, unused=0 if rng.random() < .7 else 2, minq=.002)
    api().calc_k0(p.mesh, p.mode)
    s = p.snap()
    h = float(s.tria_prop(0, p.mode, ('h',))[0])
    A, l = s.area[0], ref.lmax(s, 0)
    for m in METH[:2]:
        K0 = bare(p, m, 0., False)
        c.close(bare(p, m, 0., True), K0, 'alpha 0 leaves the shear stiffness unmodified: ' + m, tol=1e-9, scale=ref_scale(K0))
        for al in alphas(p, 3):
            for ao in (False, True):
                f = 1 + al*(A if ao else l**2)/h**2
                c.close(bare(p, m, float(al), ao)*f, K0, 'ratio 1+alpha*l^2/h^2: ' + m, tol=1e-8, scale=ref_scale(K0), alpha=float(al), area=ao, h=h, l=l)
    describe(c, p)

def per_domain(s, p, m, al, ao):
    return ref.shear(s, p.mode, m, al, ao)

def case_field(c, **kw):
    rng = c.rng
    watch_k0s(c, METH[:2], what='sum over domains of factor times unstabilised stiffness')
    p = Problem(c, thick=True, uniform=False if rng.random() < .7 else None, uncoupled=True, **kw)
    if rng.random() < .35:      # neighbours differ by little
        items = [it for it in (p.nodes if p.mode else p.trias) if it.prop is not None]
        q, e = items[0].prop, 10.**rng.uniform(-6, -1)
        for it in items:
            it.prop = types.SimpleNamespace(**{k: getattr(q, k) for k in ('A', 'B', 'D', 'E', 'h', 'scf_k13', 'scf_k23')})
            for k in ('h', 'scf_k13', 'scf_k23'):
                if rng.random() < .6:
                    setattr(it.prop, k, getattr(q, k)*(1 + e*rng.normal()))
        c.stats['nearly uniform thickness'] += 1
    api().calc_k0(p.mesh, p.mode)
    for m in METH[:2]:
        for ao in (False, True):
            bare(p, m, float(alphas(p, 1)[0]), ao)
    describe(c, p, field=True)

def case_slivers(c):
    case_field(c, spec=gen.slivers(c.rng))

def case_both_modes(c):
    rng = c.rng
    watch_k0s(c, METH[:2], what='sum over domains of factor times unstabilised stiffness')
    p = Problem(c, thick=True)
    gen.assign(rng, p.spec, p.nodes, p.trias, not p.mode)
    api().calc_k0(p.mesh, p.mode)
    for p.mode in (True, False):
        for m in METH[:2]:
            bare(p, m, float(alphas(p, 1)[0]), bool(rng.integers(2)))
    describe(c, p, both=True)

def case_monotone(c):
    rng = c.rng
    p = Problem(c, uncoupled=True)
    api().calc_k0(p.mesh, p.mode)
    m = METH[c.index % 3]
    ao = bool(rng.integers(2))
    al = sorted(rng.choice(ALPHAS, 4, replace=False))
    Ks = [bare(p, m, float(x), ao) for x in al]
    for (a1, K1), (a2, K2) in zip(zip(al, Ks), list(zip(al, Ks))[1:]):
        D = K1 - K2
        sc = ref_scale(K1)
        w = np.linalg.eigvalsh(.5*(D+D.T)/sc)
        c.ok(w[0] >= -1e-9*5*p.n, 'more stabilisation never stores more energy: ' + m, lowest=float(w[0]), alphas=(float(a1), float(a2)))
        # and it does act
        if a2 > 1e-3:
            c.ok(np.abs(D).max() > 0, 'stabilisation acts: ' + m, alphas=(float(a1), float(a2)))
    describe(c, p, method=m, area=ao)

def case_edge(c):
    """Edge-based: boundary-only meshes exactly; interior edges up to the known finding."""
    rng = c.rng
    p = Problem(c, thick=True, spec=islands(c) if rng.random() < .5 else None, uncoupled=True)
    api().calc_k0(p.mesh, p.mode)
    s = p.snap()
    K0 = bare(p, 'edge-based', 0., False)
    c.close(bare(p, 'edge-based', 0., True), K0, 'alpha 0 leaves the shear stiffness unmodified: edge-based', tol=1e-9, scale=ref_scale(K0))
    base = None
    for quirk in (False, True):
        R = ref.shear(s, p.mode, 'edge-based', 0., False, quirk)
        if np.all(np.abs(K0-R) <= 1e-7*ref_scale(R)):
            base = quirk
            break
    c.stats['edge-based base form %s' % base] += 1
    if base is None:
        # not the stiffness C12 knows; decide on the stabilisation alone when there is one factor
        return describe(c, p, skipped=True)
    for al in alphas(p, 2):
        for ao in (False, True):
            R = ref.shear(s, p.mode, 'edge-based', float(al), ao, base)
            c.close(bare(p, 'edge-based', float(al), ao), R, 'edge domain factor 1+alpha*l^2/h^2: edge-based', scale=ref_scale(R), alpha=float(al), area=ao)
    describe(c, p, edge=True)
