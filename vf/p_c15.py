"""C15: kG against the independent reference and closed forms."""
import numpy as np
from . import gen, ref
from .common import *
RULE = ('random meshes x property fields (B != 0, fully populated) x displacement vectors (random, smooth, single dof, mostly rigid, tiny/huge, integer-valued, '
        'read-only, strided, other number types), every kG compared with the reference; uniform linear fields compared with Area*N; distinct by mesh, mode and vector kind')
KINDS = [('any', 5), ('linear', 3), ('slivers', .5), ('big', .7), ('large', .15), ('repo_tests', .1)]
NEED_EVENTS = ['calc_kG', 'calc_k0']
MIN_CASES = 60

def vectors(rng, p):
    n = p.n
    k = str(rng.choice(['random', 'random', 'smooth', 'single', 'rigid', 'tiny', 'huge', 'rotations', 'readonly', 'strided', 'integers', 'int32', 'float32', 'bigendian', 'big integers']))
    U = rng.normal(size=(n, 5))
    xy = p.xy()/p.spec.size()
    if k == 'smooth':
        U = np.array([np.sin(xy @ rng.normal(size=2)*2 + i) for i in range(5)]).T
    elif k == 'single':
        U[:] = 0; U[int(rng.choice(p.spec.used())), int(rng.integers(5))] = 1.
    elif k == 'rigid':
        U = np.zeros((n, 5)); U[:, 0] = 1e3; U += 1e-3*rng.normal(size=(n, 5))
    elif k == 'tiny':
        U *= 1e-12
    elif k == 'huge':
        U *= 1e9
    elif k == 'rotations':
        U[:, :3] = 0
    elif k in ('integers', 'int32'):
        U = rng.integers(-9, 10, (n, 5)) if rng.random() < .6 else rng.integers(-1, 2, (n, 5))
    elif k == 'big integers':
        U = rng.integers(-10**15, 10**15, (n, 5))
    v = p.vec(U)
    if k == 'readonly':
        v.flags.writeable = False
    if k in ('integers', 'big integers'):
        v = v.astype(np.int64)
    elif k == 'int32':
        v = v.astype(np.int32)
    elif k == 'float32':
        v = v.astype(np.float32)
    elif k == 'bigendian':
        v = v.astype('>f8')
    if k == 'strided':
        b = np.full(2*len(v), 3e8); b[::2] = v; v = b[::2]
    return k, v

def case_any(c, **kw):
    rng, a = c.rng, api()
    watch_kG(c)
    p = Problem(c, units=True, **kw)
    a.calc_k0(p.mesh, p.mode)
    gen.assign(rng, p.spec, p.nodes, p.trias, not p.mode, units=True)
    for mode in ((p.mode, not p.mode) if rng.random() < .3 else (p.mode,)):
        k, v = vectors(rng, p)
        g = a.calc_kG(v, p.mesh, mode)
        c.ok(g.shape == (5*p.n, 5*p.n), 'shape')
        c.ok(np.abs(g - g.T).max() <= 1e-9*np.abs(g).max(), 'symmetric')
        w = np.tile([0, 0, 1, 0, 0], p.n).astype(bool)
        c.ok(not g[~w].any() and not g[:, ~w].any(), 'no entry outside w rows and columns')
        describe(c, p, vector=k)

def case_slivers(c):
    case_any(c, spec=gen.slivers(c.rng, 4.))
def case_big(c):
    case_any(c, big=True)
def case_large(c):
    case_any(c, kind='large')

def case_linear(c):
    rng, a = c.rng, api()
    p = Problem(c, uniform=True, big=rng.random() < .2)
    q = (p.nodes if p.mode else p.trias)[0].prop
    a.calc_k0(p.mesh, p.mode)
    xy = p.xy()
    for _ in range(2):
        gr = rng.normal(size=(5, 2))
        gr[3:] /= float(q.h)
        if rng.random() < .4:
            gr[np.arange(5) != int(rng.choice([0, 1, 3, 4]))] = 0
        U = np.array([rng.normal()*p.spec.size()*.1 + xy @ gr[i] for i in range(5)]).T
        v = p.vec(U)
        em = np.array([gr[0, 0], gr[1, 1], gr[0, 1]+gr[1, 0]])
        kb = np.array([gr[3, 0], gr[4, 1], gr[3, 1]+gr[4, 0]])
        N = q.A @ em + q.B @ kb
        S = ref.kG(p.snap(), p.mode, v, parts=True)[1]     # magnitude of everything that is summed
        g = a.calc_kG(v, p.mesh, p.mode)
        area = np.abs(p.spec.areas()).sum()
        ab = rng.normal(size=2)
        for s in (ab, np.array([1., 0]), np.array([0, 1.])):
            w = np.zeros((p.n, 5)); w[:, 2] = rng.normal() + xy @ s
            x = p.vec(w)
            want = area*(N[0]*s[0]**2 + 2*N[2]*s[0]*s[1] + N[1]*s[1]**2)
            got = x @ g @ x
            mag = np.abs(x) @ np.abs(g) @ np.abs(x)
            c.ok(abs(got-want) <= 1e-7*(np.abs(N).max()*area*(s @ s)) + 1e-10*mag + 1e-12*(np.abs(x) @ S @ np.abs(x)), 'linear field gives Area*(Nxx a^2 + 2 Nxy a b + Nyy b^2)', got=float(got), expected=float(want), N=N, slope=s)
    describe(c, p, linear=True)

def case_repo_tests(c):
    from .repotests import run_espim
    watch_kG(c)
    run_espim(c)
