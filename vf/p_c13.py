"""C13: adding is in place, additive, isolated; dispatch and defaults."""
import numpy as np
from . import gen, ref
from .common import *
from .islands import islands
RULE = ('all methods and option combinations, starting from zero, k0, random, Fortran-ordered and strided matrices, called repeatedly with positional, keyword and '
        'default arguments; the monitor compares the matrix object before and after every call; distinct by mesh, mode, method, start and options')
KINDS = [('inplace', 4), ('additive', 3), ('defaults', 2), ('select', 3), ('sequence', 2)]
NEED_EVENTS = ['add_k0s']
MIN_CASES = 60

def starts(rng, n, k):
    h = str(rng.choice(['zero', 'k0', 'random', 'fortran', 'strided', 'view', 'ones', 'penalty', 'nan', 'complex']))
    N = 5*n
    s = np.abs(k).max()
    if h == 'zero':
        return h, np.zeros((N, N))
    if h == 'k0':
        return h, k.copy()
    if h == 'random':
        return h, rng.normal(size=(N, N))*s
    if h == 'fortran':
        return h, np.asfortranarray(rng.normal(size=(N, N))*s)
    if h == 'strided':
        return h, (rng.normal(size=(2*N, 2*N))*s)[::2, ::2]
    if h == 'view':
        return h, (rng.normal(size=(N+4, N+4))*s)[3:N+3, 1:N+1]
    if h == 'penalty':      # supports by large numbers on the diagonal
        K = k.copy()
        i = rng.choice(N, int(rng.integers(1, N)), replace=False)
        K[i, i] = s*float(rng.choice([1e6, 1e20, 1e200]))
        return h, K
    if h == 'nan':          # entries not filled in yet
        K = rng.normal(size=(N, N))*s
        K[rng.random((N, N)) < rng.choice([.002, .05])] = rng.choice([np.nan, np.inf])
        return h, K
    if h == 'complex':      # structural damping
        return h, k*(1 + .02j)
    return h, np.full((N, N), s)

def bare(p, method, **kw):
    return api().add_k0s(np.zeros((5*p.n, 5*p.n)), p.mesh, p.mode, method=method, **kw)

def begin(c, **kw):
    p = Problem(c, **kw)
    k = api().calc_k0(p.mesh, p.mode)
    return p, k

def scale(b, ref_):
    return ref_scale(ref_) + 1e-6*np.abs(b)

def case_inplace(c):
    rng, a = c.rng, api()
    p, k = begin(c)
    m = METH[c.index % 3]
    kw = dict(alpha=gen.alpha_of(rng), maxl_from_area=bool(rng.integers(2)))
    R = bare(p, m, **kw)
    how, K = starts(rng, p.n, k)
    before = K.copy()
    out = a.add_k0s(K, p.mesh, p.mode, method=m, **kw)
    c.ok(out is K, 'returns the given matrix object: ' + m, start=how)
    fin = np.isfinite(before)
    c.ok(np.array_equal(np.isfinite(K), fin), 'only what was there is not finite: ' + m, start=how)
    c.close(np.where(fin, K, 0) - np.where(fin, before, 0), np.where(fin, R, 0), 'what is added does not depend on the content: ' + m, tol=1e-8, scale=scale(np.where(fin, before, 0), R), start=how)
    lab = np.tile([1, 1, 0, 0, 0], p.n).astype(bool)
    ch = (K != before) & fin
    c.ok(not ch[lab].any() and not ch[:, lab].any(), 'u and v entries stay untouched: ' + m, start=how)
    if how in ('strided', 'view'):
        pass
    describe(c, p, method=m, start=how, **kw)

def case_additive(c):
    rng, a = c.rng, api()
    p, k = begin(c)
    m = METH[c.index % 3]
    kw = dict(alpha=gen.alpha_of(rng), maxl_from_area=bool(rng.integers(2)))
    R = bare(p, m, **kw)
    n = int(rng.integers(2, 5))
    K = k.copy()
    obj = K
    for i in range(n):
        K = a.add_k0s(K, p.mesh, p.mode, method=m, **kw)
        c.close(K - k, (i+1)*R, 'n additions add n copies: ' + m, tol=1e-8, scale=(i+1)*scale(k, R), n=i+1)
    c.ok(K is obj, 'still the same object')
    describe(c, p, method=m, n=n, **kw)

def case_defaults(c):
    rng, a = c.rng, api()
    p, k = begin(c)
    Z = lambda: np.zeros_like(k)
    R = bare(p, 'cell-based', alpha=.08, maxl_from_area=False)
    T = ref.shear(p.snap(), p.mode, 'cell-based', .08, False)
    c.close(R, T, 'explicit defaults', scale=ref_scale(T))
    c.close(a.add_k0s(Z(), p.mesh, p.mode), T, 'default is cell-based, alpha 0.08, edge length', scale=ref_scale(T))
    c.close(a.add_k0s(Z(), p.mesh, p.mode, alpha=.08), T, 'default method', scale=ref_scale(T))
    c.close(a.add_k0s(Z(), p.mesh, p.mode, maxl_from_area=False), T, 'default alpha', scale=ref_scale(T))
    for m in METH[:2]:
        T = ref.shear(p.snap(), p.mode, m, .08, False)
        c.close(a.add_k0s(Z(), p.mesh, p.mode, m), T, 'default alpha and length option: ' + m, scale=ref_scale(T))
        T = ref.shear(p.snap(), p.mode, m, .08, True)
        c.close(a.add_k0s(Z(), p.mesh, p.mode, method=m, maxl_from_area=True), T, 'default alpha: ' + m, scale=ref_scale(T))
    E = bare(p, 'edge-based', alpha=.08, maxl_from_area=False)
    c.close(a.add_k0s(Z(), p.mesh, p.mode, 'edge-based'), E, 'defaults: edge-based', tol=1e-9, scale=ref_scale(E))
    describe(c, p)

def case_select(c):
    """Method, mode, alpha and length option reach the formulation unchanged."""
    rng, a = c.rng, api()
    lone = bool(rng.random() < .4)
    watch_k0s(c, METH if lone else METH[:2], what='selected formulation')
    p, k = begin(c, spec=islands(c) if lone else None, uncoupled=lone)
    gen.assign(rng, p.spec, p.nodes, p.trias, not p.mode, uncoupled=lone)
    s = p.snap()
    al = float(rng.choice([0., .05, .3, 2., 50.]))
    same = lambda x, R: np.all(np.abs(x-R) <= 1e-7*ref_scale(R))
    for m in METH:
        for mode in (True, False):
            for ao in (True, False):
                x = np.zeros_like(k)
                if rng.random() < .5:
                    a.add_k0s(x, p.mesh, mode, m, al, ao)
                else:
                    a.add_k0s(k0=x, mesh=p.mesh, prop_from_node=mode, method=m, alpha=al, maxl_from_area=ao)
                if m == 'edge-based' and not lone:   # at least not one of the others
                    other = [o for o in METH[:2] if same(x, ref.shear(s, mode, o, al, ao))]
                    own = not other or any(same(x, ref.shear(s, mode, m, al, ao, q)) for q in (False, True))
                    c.ok(own, 'edge-based is not another formulation', is_=other)
    describe(c, p, alpha=al, lone=lone)

def case_sequence(c):
    """Different methods added to one matrix give the sum of the bare increments."""
    rng, a = c.rng, api()
    p, k = begin(c)
    K, want, S = k.copy(), k.copy(), ref_scale(k)*1e-6
    for _ in range(4):
        m = str(rng.choice(METH)); kw = dict(alpha=gen.alpha_of(rng), maxl_from_area=bool(rng.integers(2)))
        R = bare(p, m, **kw)
        want = want + R
        S = S + scale(want, R)
        out = a.add_k0s(K, p.mesh, p.mode, method=m, **kw)
        c.ok(out is K, 'same object along the sequence')
        c.close(K, want, 'sequence of additions', tol=1e-8, scale=S, method=m)
    describe(c, p, sequence=True)
