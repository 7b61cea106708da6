"""C33: the worked examples of the theory against the library."""
import ast, contextlib, io, os, runpy, shutil, sys, types, warnings
import numpy as np
from . import env, gen, ref, p_c29
from .common import *
RULE = ('the worked examples shipped with the theory are run in a scratch directory, as they are and with other dimensions, materials, laminates and moved nodes; the solver '
        'calls and matrices they make are recorded and compared with the library and with a direct B^T C B product; distinct by example, geometry and laminate')
KINDS = [('membrane', 2), ('cell_based', 2), ('no_smoothing', 2), ('edge_based', 2), ('sfem', 3), ('sfem_derivation', .3), ('module', 2), ('decks', 1)]
NEED_EVENTS = ['dense', 'calc_k0', 'add_k0s', 'calc_kG', 'read_mesh', 'read_delaunay']
MIN_CASES = 30
ASSUMPTIONS = ['an example is varied through the constants a, b, E11, nu, plyt it defines, the laminate it asks composites.laminate.read_stack for and the positions of its nodes '
               'before its triangles exist; where a rewritten example has none of these it is run as it is']
PLATE = 'theory/espim/2D/plate/FSDT/transverse_shear_%s/espim_example.py'
FILES = {'membrane': 'theory/espim/2D/membrane/espim_example.py', 'cell_based': PLATE % 'cell_based', 'no_smoothing': PLATE % 'cell_based_no_smoothing',
         'edge_based': PLATE % 'edge_based', 'sfem': 'theory/sfem/sfem_tria3_example.py',
         'module': 'theory/espim/2D/plate/FSDT/transverse_shear_cell_based/espim_example_from_module.py'}

# ---------------------------------------------------------------- running an example
class Silent(object):
    """Stands for matplotlib: anything goes, nothing is drawn."""
    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        return Silent()
    def __call__(self, *a, **k):
        return Silent()

def fake(name, **kw):
    m = types.ModuleType(name)
    m.__getattr__ = lambda nm: Silent()
    m.__dict__.update(kw)
    return m

class Run(object):
    def __init__(self):
        self.solves, self.lbs, self.k0, self.kG, self.g, self.out = [], [], [], [], {}, ''

def dense(K):
    return K.toarray() if hasattr(K, 'toarray') else np.array(K, float)

def execute(c, path, over, lam, move, shuffle=None):
    """Run the example; record every solver call and every state of its matrices."""
    import structsolve, composites.laminate as cl
    r = Run()
    with open(path) as f:
        t = ast.parse(f.read())
    body = []
    for st in ast.walk(t):          # membrane forces are set inside the loop over edges
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id in over \
                and st.targets[0].id in ('Nxx', 'Nyy', 'Nxy') and not any(isinstance(q, (ast.Name, ast.Call)) for q in ast.walk(st.value)):
            st.value = ast.parse(repr(over[st.targets[0].id]), mode='eval').body
            c.stats['overridden ' + st.targets[0].id] += 1
    def names(st):
        return [q.id for x in (st.targets if isinstance(st, ast.Assign) else ()) for q in ast.walk(x) if isinstance(q, ast.Name)]
    def watched(body, arg):
        out = []
        for st in body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id in over:
                st.value = ast.parse(repr(over[st.targets[0].id]), mode='eval').body
                c.stats['overridden ' + st.targets[0].id] += 1
            out += [st] + ([] if isinstance(st, (ast.Return, ast.Global, ast.Raise)) else ast.parse('__seen__(%s)' % arg).body)
        return out
    for fn in t.body:               # an example may be written as functions
        if isinstance(fn, ast.FunctionDef) and {'nodes', 'trias', 'edges'} & {n for st in fn.body for n in names(st)}:
            fn.body = watched(fn.body, 'locals()')
            c.stats['functions watched'] += 1
    body = watched(t.body, '')
    t.body = [b for b in body]
    fut = [b for b in t.body if isinstance(b, ast.ImportFrom) and b.module == '__future__']
    t.body = fut + [b for b in t.body if b not in fut]
    ast.fix_missing_locations(t)
    ns_ = {'__name__': '__main__', '__file__': path}
    r.g = {}
    has_edges = any('edges' in names(st) for st in ast.walk(t))
    moved, turned = [], []
    def seen(local=None):
        r.g.update({k: v for k, v in (ns_ if local is None else local).items() if k[:2] != '__'
                    and not (local is not None and k in ('nodes', 'trias', 'edges') and not (hasattr(v, '__len__') and len(v) > 4))})
        g = r.g
        if not moved and 'nodes' in g:
            moved.append(1)
            try:
                ns = list(g['nodes'])
                if move is not None and 'trias' not in g and ns and all(hasattr(n, 'pos') for n in ns):
                    move(ns)
                    c.stats['nodes moved'] += 1
            except TypeError:
                pass
        if shuffle and not turned and 'trias' in g and ('edges' in g or not has_edges):
            turned.append(1)
            for o in list(g['trias']) + list(g.get('edges', ())):
                ns = list(getattr(o, 'nodes', ()))
                if len(ns) in (2, 3) and all(getattr(o, 'n%d' % (k+1), None) is n for k, n in enumerate(ns)) and not getattr(o, 'ipts', None):
                    ns = [ns[k] for k in shuffle.permutation(len(ns))]
                    o.nodes = ns
                    for k, n in enumerate(ns):
                        setattr(o, 'n%d' % (k+1), n)
            c.stats['node orders shuffled'] += 1
        for nm, l in (('k0', r.k0), ('kG', r.kG)) if local is None else ():
            K = ns_.get(nm)
            if isinstance(K, np.ndarray) and K.ndim == 2 and (not l or l[-1].shape != K.shape or not np.array_equal(l[-1], K)):
                l.append(K.copy())
    ns_['__seen__'] = seen
    def solve(K, f, *a, **k):
        A, b = dense(K), np.array(f, float)
        u = o_solve(K, f, *a, **k)
        r.solves.append((A, b, np.array(u, float)))
        return u
    def lb(K, M, *a, **k):
        A, B = dense(K), dense(M)
        e, v = o_lb(K, M, *a, **k)
        r.lbs.append((A, B, np.array(e), np.array(v)))
        return e, v
    def stack(*a, **k):
        return lam if lam is not None else o_stack(*a, **k)
    def symmetric(m):
        # structsolve's own compares entries with an absolute tolerance: round-off of a stiff plate fails it
        D = dense(m)
        return bool(np.abs(D - D.T).max() <= 1e-9*max(np.abs(D).max(), 1e-300))
    import structsolve.sparseutils as su
    o_solve, o_lb, o_stack, o_sym = structsolve.solve, structsolve.lb, cl.read_stack, su.is_symmetric
    names = ('matplotlib', 'matplotlib.pyplot', 'matplotlib.cm', 'pylab')
    old = {n: sys.modules.get(n) for n in names}
    cwd, argv = os.getcwd(), sys.argv
    w = os.path.join(c.tmp, 'example'); os.makedirs(w, exist_ok=True)
    try:
        pp, cm = fake('matplotlib.pyplot'), fake('matplotlib.cm')
        sys.modules.update({'matplotlib': fake('matplotlib', pyplot=pp, cm=cm), 'matplotlib.pyplot': pp, 'matplotlib.cm': cm, 'pylab': pp})
        structsolve.solve, structsolve.lb, cl.read_stack, su.is_symmetric = solve, lb, stack, symmetric
        os.chdir(w); sys.argv = [path]
        with contextlib.redirect_stdout(io.StringIO()) as o, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            exec(compile(t, path, 'exec'), ns_)
        r.out = o.getvalue()
    finally:
        structsolve.solve, structsolve.lb, cl.read_stack, su.is_symmetric = o_solve, o_lb, o_stack, o_sym
        for n in names:
            if old[n] is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = old[n]
        os.chdir(cwd); sys.argv = argv
    c.stats['examples run'] += 1
    return r

def variation(c, a0=(7., 2.)):
    """Random dimensions, material, laminate and node positions."""
    rng = c.rng
    over, lam, move = {}, None, None
    if rng.random() < .1:
        return over, lam, move
    if rng.random() < .7:
        s = float(rng.choice([1., 1., 1e-2, 30.]))
        over.update(a=float(rng.uniform(1, 8)*s), b=float(rng.uniform(1, 8)*s))
    if rng.random() < .5:
        over.update(E11=float(10**rng.uniform(5, 11)), nu=float(rng.uniform(0, .45)), plyt=float(10**rng.uniform(-4, -1)))
    if rng.random() < .6:
        lam = gen.laminate(rng)
    if rng.random() < .7:
        amp = float(rng.choice([.05, .15]))
        aff = None
        if rng.random() < .5:
            M = np.eye(2) + rng.uniform(-.4, .4, (2, 2))
            if rng.random() < .3:
                M = M @ np.diag([1., -1.])
            aff = M, rng.uniform(-5, 5, 2)
        jit = rng.uniform(-1, 1, (64, 2))
        def move(ns):
            P = np.array([np.array(n.pos, float)[:2] for n in ns])
            D = np.linalg.norm(P[:, None]-P[None], axis=2) + 1e300*np.eye(len(P))
            P = P + amp*D.min()*jit[:len(P)]
            if aff:
                P = P @ aff[0].T + aff[1]*D.min()
            for n, p in zip(ns, P):
                n.pos[:2] = p
    return over, lam, move

# ---------------------------------------------------------------- expected matrices
def G_of(p, k):
    E = np.asarray(p.E)
    return k*np.array([[E[1, 1], E[0, 1]], [E[0, 1], E[0, 0]]])        # rows gxz, gyz; E is ordered yz, xz

def put(K, s, ns, d, M):
    ix = np.array([5*int(s.index[n])+k for n in ns for k in d])
    K[np.ix_(ix, ix)] += M

def shear_cells(s, p, bs):
    K = np.zeros((5*s.N, 5*s.N))
    for t in range(len(s.tris)):
        B = bs(s, t)
        put(K, s, s.ccw[t], (2, 3, 4), s.area[t]*B.T @ G_of(p, 5/6) @ B)
    return K

def mids(P, o):
    """(9, 9): dofs of a sub-triangle from corner dofs; o lists corner numbers, None = centroid."""
    M = np.zeros((9, 9))
    for r, k in enumerate(o):
        for q in range(3):
            M[3*r:3*r+3, 3*q:3*q+3] += np.eye(3)*(1/3 if k is None else float(q == k))
    return M

def sfem_bs(s, t):
    P = [s.xyz[n, :2] for n in s.ccw[t]]
    X = lambda k: sum(P)/3 if k is None else P[k]
    tot, B = 0, 0
    for o in ((None, 1, 2), (0, None, 2), (0, 1, None)):
        b, A = ref.dsg(*[X(k) for k in o])
        B = B + A*b @ mids(P, o); tot += A
    return B/tot

def shear_edges(s, p):
    """Both sub-triangles of an edge anchored at their centroid."""
    K = np.zeros((5*s.N, 5*s.N))
    for e, ts in s.edges.items():
        ns = sorted({n for t in ts for n in s.tris[t]})
        B, tot = np.zeros((2, 3*len(ns))), 0
        for t in ts:
            w = list(s.ccw[t]); P = [s.xyz[n, :2] for n in w]
            i = next(i for i in range(3) if {w[i], w[(i+1) % 3]} == set(e))
            b, A = ref.dsg(sum(P)/3, P[i], P[(i+1) % 3])
            b = A*b @ mids(P, (None, i, (i+1) % 3)); tot += A
            for q in range(3):
                k = ns.index(w[q]); B[:, 3*k:3*k+3] += b[:, 3*q:3*q+3]
        B /= tot
        put(K, s, ns, (2, 3, 4), tot*B.T @ G_of(p, 5/6) @ B)
    return K

def cst(s, p):
    """Linear triangles."""
    K = np.zeros((5*s.N, 5*s.N))
    C = np.block([[p.A, p.B], [p.B, p.D]])
    for t in range(len(s.tris)):
        g = np.asarray(s.grad[t])
        B = np.zeros((6, 15))
        B[0, 0::5] = g[:, 0]; B[1, 1::5] = g[:, 1]; B[2, 0::5] = g[:, 1]; B[2, 1::5] = g[:, 0]
        B[3, 3::5] = g[:, 0]; B[4, 4::5] = g[:, 1]; B[5, 3::5] = g[:, 1]; B[5, 4::5] = g[:, 0]
        put(K, s, s.ccw[t], range(5), s.area[t]*B.T @ C @ B)
    return K

# ---------------------------------------------------------------- judging
def tiles(c, P, tris, over):
    """The triangles of the example cover the plate once."""
    lo, hi = P[:, :2].min(axis=0), P[:, :2].max(axis=0)
    if 'a' in over and 'b' in over:
        c.ok(np.abs(hi - lo - [over['a'], over['b']]).max() <= 1e-9*max(over['a'], over['b']), 'the example has the plate dimensions stated', got=hi-lo, stated=(over['a'], over['b']))
    q = P[tris][:, :, :2]
    A = .5*((q[:, 1, 0]-q[:, 0, 0])*(q[:, 2, 1]-q[:, 0, 1]) - (q[:, 2, 0]-q[:, 0, 0])*(q[:, 1, 1]-q[:, 0, 1]))
    e = {}
    for t in tris:
        for i in range(3):
            k = frozenset((int(t[i]), int(t[i-1]))); e[k] = e.get(k, 0) + 1
    inside = all(any(np.abs(P[list(k), i] - s[i]).max() <= 1e-9*(hi[i]-lo[i]) for i in (0, 1) for s in (lo, hi)) for k, v in e.items() if v == 1)
    c.ok(abs(np.abs(A).sum() - np.prod(hi-lo)) <= 1e-9*np.prod(hi-lo) and max(e.values()) <= 2 and len(set(tris.ravel().tolist())) == len(P) and inside,
         'the triangles of the example cover its plate once', area=float(np.abs(A).sum()), plate=float(np.prod(hi-lo)), edge_use=max(e.values()))

def sides(P):
    lo, hi = P[:, :2].min(axis=0), P[:, :2].max(axis=0)
    return [frozenset(np.where(np.abs(P[:, i] - v[i]) <= 1e-6*(hi[i]-lo[i]))[0].tolist()) for i in (0, 1) for v in (lo, hi)]

def supports(c, P, ind, fixed, dof):
    """Whole sides of the plate (or one corner) are restrained, per displacement component."""
    S = sides(P)
    fx = np.asarray(fixed).reshape(-1, dof)[np.asarray(ind)]
    for k in range(dof):
        got = frozenset(np.where(fx[:, k])[0].tolist())
        want = frozenset().union(*[s for s in S if s <= got])
        corner = len(got - want) == 1 and sum(next(iter(got - want)) in s for s in S) == 2
        c.ok(got == want or corner, 'whole sides of the plate are supported', dof=k, nodes=sorted(got))
    c.ok(fx.any(), 'the plate is supported')

def loads(c, P, ind, f, dof):
    """A uniform line load on one side, or a balanced pair of forces."""
    F = np.asarray(f, float).ravel().reshape(-1, dof)[np.asarray(ind)]
    k = np.where(np.abs(F).sum(axis=0) > 0)[0]
    if not c.ok(len(k) == 1, 'the example loads one displacement component', components=k):
        return
    F = F[:, k[0]]
    on = frozenset(np.where(F != 0)[0].tolist())
    if len(on) == 2 and abs(F.sum()) <= 1e-12*np.abs(F).max():
        return c.stats.update({'balanced loads': 1})
    for i, s in zip((0, 0, 1, 1), sides(P)):
        if on and on <= s:
            o = sorted(s, key=lambda n: P[n, 1-i]); y = P[o, 1-i]
            w = np.zeros(len(o)); d = np.diff(y); w[:-1] += d/2; w[1:] += d/2
            c.stats['line loads'] += 1
            return c.ok(np.abs(F[o] - F[o].sum()*w/w.sum()).max() <= 1e-4*np.abs(F).max(), 'the load is a uniform line load', forces=F[o])
    c.ok(False, 'the load is a uniform line load on a side or a balanced pair', nodes=sorted(on))

def near(c, got, want, what, tol=1e-9, **kw):
    d = np.sqrt(np.abs(np.diag(want))) + 1e-300
    return c.close(got, want, what, tol=tol, scale=np.outer(d, d) + 1e-14*np.abs(want).max(), **kw)

def restrained(c, A, want, what):
    """A is want with the rows and columns of restrained dofs emptied -> free dofs."""
    if not c.ok(A.shape == want.shape, 'the example assembles for all its nodes', got=A.shape, expected=want.shape):
        return None
    fr = np.abs(A).max(axis=1) > 0
    fr = fr | ~(np.abs(want).max(axis=1) > 0)
    fx = ~fr
    c.ok(np.abs(A[fx]).sum() == 0 and np.abs(A[:, fx]).sum() == 0 and fr.sum() >= .5*len(A), 'restrained dofs are removed, the others kept', restrained=int(fx.sum()))
    near(c, A[np.ix_(fr, fr)], want[np.ix_(fr, fr)], what)
    return fr

def solution(c, u, f, want, fr):
    u = np.asarray(u).ravel()
    c.ok(np.isfinite(u).all() and not u[~fr].any(), 'the solution is finite and zero at restrained dofs')
    ix = np.where(fr & (np.abs(np.diag(want)) > 0))[0]
    B = want[np.ix_(ix, ix)]
    d = 1/np.sqrt(np.abs(np.diag(B)))
    S = B*np.outer(d, d)
    if np.linalg.cond(S) < 1e11:
        w = np.zeros(len(u)); w[ix] = d*np.linalg.solve(S, d*f[ix])
        c.ok(np.abs((u-w)[ix]/d).max() <= 1e-4*np.abs(w[ix]/d).max() + 1e-300, 'the solution is that of the library\'s system', error=float(np.abs((u-w)[ix]/d).max()))
        c.stats['solutions compared'] += 1

def geometry(c, r):
    g = r.g
    try:
        ns = list(g['nodes']); ts = list(g['trias'])
        pos = {id(n): i for i, n in enumerate(ns)}
        tris = np.array([[pos[id(n)] for n in t.nodes] for t in ts])
        ind = [int(n.index) for n in ns]
        prop = ts[0].prop
    except (KeyError, AttributeError, TypeError):
        c.stats['example without nodes and trias'] += 1
        return None
    return np.array([n.pos for n in ns], float), tris, ind, prop

def setup(c, name):
    over, lam, move = variation(c)
    path = os.path.join(env.REPO, FILES[name])
    before, first = [None], [None]
    def mv(ns):
        first[0] = np.array([n.pos for n in ns], float)
        if move:
            move(ns)
        before[0] = np.array([n.pos for n in ns], float)
    if name == 'cell_based' and c.rng.random() < .7:
        over.update({k: float(c.rng.choice([0., 1., -1.])*10**c.rng.uniform(-1, 4)) for k in ('Nxx', 'Nyy', 'Nxy')})
        if not any(over[k] for k in ('Nxx', 'Nyy', 'Nxy')):
            over['Nyy'] = -20.
    r = execute(c, path, over, lam, mv, c.rng if c.rng.random() < .75 else None)
    q = geometry(c, r)
    c.ok(len(r.solves) >= 1, 'the example solves', solves=len(r.solves))
    if q is None:
        return None
    pts, tris, ind, prop = q
    if before[0] is not None:
        pts = before[0]              # the membrane example moves its nodes when it plots
    P = types.SimpleNamespace(A=np.array(prop.A), B=np.array(prop.B), D=np.array(prop.D), E=np.array(prop.E), h=1., scf_k13=5/6, scf_k23=5/6)
    if lam is not None:
        c.ok(all(np.array_equal(getattr(P, nm), getattr(lam, nm)) for nm in 'ABDE'), 'the example uses the laminate it made')
    grid = first[0] if first[0] is not None else pts
    tiles(c, grid, tris, over)
    c.ok(sorted(ind) == list(range(len(pts))), 'the example numbers its nodes from 0', numbers=ind)
    # the library on the same mesh
    mesh = api().read_delaunay(pts, gen.as_tri(tris))
    nodes = list(mesh.nodes.values())
    for o in list(mesh.elements.values()) + nodes:
        o.prop = P
    mode = bool(c.rng.integers(2))
    lib = api().calc_k0(mesh, mode)
    il = [int(n.index) for n in nodes]
    to = np.empty(5*len(il), int)
    for a, b in zip(ind, il):
        to[5*a:5*a+5] = np.arange(5*b, 5*b+5)
    s = ref.Snap.of(pts, tris, eprop=[P]*len(tris))
    s.index = np.array(ind)
    c.sig(name, pts.tobytes(), P.A.tobytes())
    c.note(example=name, over=over, laminate=lam is not None, moved=move is not None)
    c.stats['example ' + name] += 1
    return types.SimpleNamespace(r=r, s=s, P=P, mesh=mesh, mode=mode, lib=lib, to=to, over=over, lam=lam, move=move, pts=pts, ind=ind, grid=grid)

def plate(c, name, bs, method):
    x = setup(c, name)
    if x is None:
        return
    r, s, P = x.r, x.s, x.P
    base = cst(s, P) if name == 'sfem' else ref.k0(s, False)
    want = base + (shear_edges(s, P) if bs is None else shear_cells(s, P, bs))
    if name != 'sfem':
        near(c, x.lib[np.ix_(x.to, x.to)], base, 'library k0 on the mesh of the example')
    if method and P.E[0, 1] == 0:
        K = x.lib.copy()
        api().add_k0s(K, x.mesh, x.mode, method, alpha=0.)
        near(c, K[np.ix_(x.to, x.to)], want, 'library stiffness without stabilisation on the mesh of the example')
        c.stats['compared with the library'] += 1
    if r.k0 and r.k0[-1].shape == want.shape:
        near(c, r.k0[-1], want, 'stiffness of the example: ' + name)
        c.stats['whole matrices compared'] += 1
    for A, f, u in r.solves:
        fr = restrained(c, A, want, 'stiffness the example solves: ' + name)
        if fr is not None:
            solution(c, u, f, want, fr)
            supports(c, x.grid, x.ind, ~fr, 5)
            loads(c, x.grid, x.ind, f, 5)
    return x, want

def case_cell_based(c):
    q = plate(c, 'cell_based', ref.cell_bs, 'cell-based')
    if q is None:
        return
    x, want = q
    r, s, P = x.r, x.s, x.P
    c.ok(len(r.lbs) >= 1, 'the example solves a buckling problem')
    xy = s.xyz[:, :2]
    unit = []
    Ai = np.linalg.inv(P.A)
    for k in range(3):
        e = Ai[:, k]
        d = np.zeros(5*s.N)
        for n in range(s.N):
            d[5*s.index[n]] = e[0]*xy[n, 0] + .5*e[2]*xy[n, 1]
            d[5*s.index[n]+1] = e[1]*xy[n, 1] + .5*e[2]*xy[n, 0]
        R = ref.kG(s, False, d)
        dl = np.empty_like(d); dl[x.to] = d
        L = api().calc_kG(dl, x.mesh, x.mode)
        c.close(L[np.ix_(x.to, x.to)], R, 'library kG for a uniform state', tol=1e-6, scale=np.abs(R).max())
        unit.append(R)
    def judge(K, fr, what):
        U = np.array([u[np.ix_(fr, fr)].ravel() for u in unit]).T
        N = [x.r.g.get(nm) for nm in ('Nxx', 'Nyy', 'Nxy')]
        got = K[np.ix_(fr, fr)].ravel()
        fit = np.linalg.lstsq(U, got, rcond=None)[0]
        c.ok(np.abs(U @ fit - got).max() <= 1e-8*np.abs(got).max() and np.abs(got).max() > 0, what, forces=fit)
        if all(isinstance(v, (int, float)) for v in N):
            c.ok(np.abs(fit - N).max() <= 1e-7*np.abs(N).max(), 'geometric stiffness is that of the membrane forces stated', fitted=fit, stated=N)
            c.stats['membrane forces compared'] += 1
    if r.kG and r.kG[-1].shape == want.shape:
        judge(r.kG[-1], np.ones(5*s.N, bool), 'geometric stiffness of the example is that of a uniform membrane state')
    for A, B, ev, vec in r.lbs:
        fr = restrained(c, A, want, 'stiffness of the buckling problem')
        if fr is None:
            continue
        c.ok(not np.abs(B[~fr]).any() and not np.abs(B[:, ~fr]).any(), 'restrained dofs are removed from the geometric stiffness')
        supports(c, x.grid, x.ind, ~fr, 5)
        judge(B, fr, 'geometric stiffness of the buckling problem is that of a uniform membrane state')
        c.stats['buckling problems'] += 1

def case_no_smoothing(c):
    plate(c, 'no_smoothing', ref.ns_bs, 'cell-based-no-smoothing')

def case_edge_based(c):
    plate(c, 'edge_based', None, None)

def case_sfem(c):
    plate(c, 'sfem', sfem_bs, None)

_sfem = []
def sfem_table(c):
    """What the SFEM derivation prints (run once per process)."""
    if not _sfem:
        w = os.path.join(c.tmp, 'derive_sfem'); os.makedirs(w)
        shutil.copy(os.path.join(env.REPO, 'theory/sfem/stiffmatrices.py'), w)
        cwd = os.getcwd()
        os.chdir(w)
        try:
            runpy.run_path(os.path.join(w, 'stiffmatrices.py'), run_name='__main__')
        except (Exception, SystemExit) as e:
            c.ok(False, 'the derivation runs', script='theory/sfem', error=repr(e)[:300])
        finally:
            os.chdir(cwd)
        fn = os.path.join(w, 'print_k0.txt')
        _sfem.append(p_c29.compiled(open(fn).read(), fn) if os.path.exists(fn) else None)
        c.stats['SFEM derivations run'] += 1
    return _sfem[0]

def case_sfem_derivation(c):
    """The matrix derived for one triangle, on random triangles and laminates (E45 included)."""
    rng = c.rng
    T = sfem_table(c)
    m = 16
    rows, want, scale = [], [], []
    while len(rows) < m:
        xy = rng.uniform(-1, 1, (3, 2))*float(10**rng.uniform(-2, 2)) + rng.uniform(-3, 3, 2)
        d1, d2 = xy[1]-xy[0], xy[2]-xy[0]
        A = .5*(d1[0]*d2[1]-d1[1]*d2[0])
        if A < 0:
            xy = xy[[0, 2, 1]]; A = -A
        if A < .05*max(np.ptp(xy[:, 0]), np.ptp(xy[:, 1]))**2:
            continue
        p = gen.laminate(rng)
        if rng.random() < .5:        # a general symmetric E
            p = types.SimpleNamespace(A=p.A, B=p.B, D=p.D, E=np.array(p.E)*[[1, .3], [.3, 1]] + .3*np.sqrt(p.E[0, 0]*p.E[1, 1])*np.array([[0, 1], [1, 0]]))
        mid = xy.mean(axis=0)
        r = {'Ac': A}
        for k, q in enumerate(((mid, xy[1], xy[2]), (xy[0], mid, xy[2]), (xy[0], xy[1], mid)), 1):
            r.update({'a%d' % k: q[1][0]-q[0][0], 'b%d' % k: q[1][1]-q[0][1], 'c%d' % k: q[2][1]-q[0][1], 'd%d' % k: q[2][0]-q[0][0], 'Ac%d' % k: A/3})
        for l in 'ABD':
            for i, j in ('11', '12', '16', '22', '26', '66'):
                r[l+i+j] = float(getattr(p, l)[{'1': 0, '2': 1, '6': 2}[i], {'1': 0, '2': 1, '6': 2}[j]])
        r.update(E44=p.E[1, 1], E45=p.E[0, 1], E55=p.E[0, 0])
        s = ref.Snap.of(np.c_[xy, np.zeros(3)], np.array([[0, 1, 2]]), eprop=[p])
        s.index = np.arange(3)
        K = cst(s, p)
        o = list(s.ccw[0])
        put(K, s, o, (2, 3, 4), s.area[0]*sfem_bs(s, 0).T @ G_of(p, 1.) @ sfem_bs(s, 0))
        d = np.sqrt(np.abs(np.diag(K)))
        rows.append(r); want.append(K); scale.append(np.outer(d, d) + 1e-13*K.max())
    K = p_c29.table(c, T, 'k0', {k: np.array([r[k] for r in rows]) for k in rows[0]}, 'SFEM derivation', n=3)
    if K is not None:
        c.close(K, np.moveaxis(np.array(want), 0, -1), 'SFEM derivation = linear triangle with smoothed shear', tol=1e-8, scale=np.moveaxis(np.array(scale), 0, -1))
    c.sig('sfem derivation', *[r['a1'] for r in rows])
    c.note(script='theory/sfem/stiffmatrices.py')

def case_membrane(c):
    x = setup(c, 'membrane')
    if x is None:
        return
    r, s, P = x.r, x.s, x.P
    full = ref.k0(s, False)
    dof = len(r.solves[0][0])//s.N if r.solves else 2
    if not c.ok(dof in (2, 5), 'the membrane example has two dofs per node', got=dof):
        return
    ix = np.array([5*i+k for i in range(s.N) for k in range(dof)])
    want = full[np.ix_(ix, ix)]
    near(c, x.lib[np.ix_(x.to, x.to)], full, 'library k0 on the mesh of the example')
    for K in r.k0:
        if K.shape == want.shape and np.abs(K).max() > 0 and (np.abs(K).max(axis=1) > 0).all():
            near(c, K, want, 'stiffness of the example: membrane')
            c.stats['whole matrices compared'] += 1
            break
    for A, f, u in r.solves:
        fr = restrained(c, A, want, 'stiffness the example solves: membrane')
        if fr is None:
            continue
        solution(c, u, f, want, fr)
        supports(c, x.grid, x.ind, ~fr, dof)
        loads(c, x.grid, x.ind, f, dof)
        if x.lam is None and (x.move is None) and dof == 2:
            # uniform tension of an isotropic strip: exact
            a, b = np.ptp(x.pts[:, 0]), np.ptp(x.pts[:, 1])
            F = f[0::2].sum()
            S = np.linalg.inv(P.A)
            i = 2*np.array(x.ind)
            u = u.ravel()
            ex, ey = S[0, 0]*F/b, S[0, 1]*F/b
            du = u[i] - ex*(x.pts[:, 0] - x.pts[:, 0].min())
            dv = u[i+1] - ey*(x.pts[:, 1] - x.pts[:, 1].max())
            c.ok(max(np.abs(du).max(), np.abs(dv).max()) <= 1e-8*abs(ex)*max(a, b), 'the membrane example gives uniform tension exactly', du=du, dv=dv)
            c.stats['uniform tension'] += 1

def case_module(c):
    """The example on top of the library: what it solves is what the reference assembles from the mesh it read."""
    rng = c.rng
    over, lam = {}, None
    if rng.random() < .9:
        if rng.random() < .7:
            over['k0s_method'] = str(rng.choice(['cell-based', 'cell-based-no-smoothing']))
        over['prop_from_nodes'] = bool(rng.integers(2))
        if rng.random() < .7:
            over['Nxx'] = float(rng.choice([-1, 1])*10**rng.uniform(-1, 4))
        if rng.random() < .6:
            lam = gen.laminate(rng)
        else:
            over.update(E11=float(10**rng.uniform(5, 11)), nu=float(rng.uniform(0, .45)), plyt=float(10**rng.uniform(-3, -1)))
    meshes, args = [], []
    c.mon.subscribe('read_mesh', post=lambda ev: meshes.append(ev.ret))
    c.mon.subscribe('add_k0s', post=lambda ev: args.append(ev.args))
    r = execute(c, os.path.join(env.REPO, FILES['module']), over, lam, None)
    if not c.ok(len(meshes) == 1 and len(args) == 1 and r.solves and r.lbs, 'the example reads its deck, assembles and solves', read=len(meshes), solves=len(r.solves)):
        return
    m, a = meshes[0], args[0]
    s = ref.Snap(m)
    mode, method = bool(a['prop_from_node']), a['method']
    al = a['alpha'] if a['alpha'] is not None else .08
    want = ref.k0(s, mode) + ref.shear(s, mode, method, al, bool(a['maxl_from_area']))
    for A, f, u in r.solves:
        fr = restrained(c, A, want, 'stiffness the example solves')
        if fr is None:
            continue
        solution(c, u, f, want, fr)
        P = np.array([n.xyz for n in m.nodes.values()], float); ind = [int(n.index) for n in m.nodes.values()]
        supports(c, P, ind, ~fr, 5)
        loads(c, P, ind, f, 5)
        N = r.g.get('Nxx')
        if isinstance(N, (int, float)):
            c.ok(abs(f[0::5].sum() - N*np.ptp(P[:, 1])) <= 1e-9*abs(N)*np.ptp(P[:, 1]), 'the load of the example is the membrane force stated times the width', total=float(f.sum()), stated=N)
        RG, S = ref.kG(s, mode, u, parts=True)
        for A2, B, ev, vec in r.lbs:
            fr2 = restrained(c, A2, want, 'stiffness of the buckling problem')
            if fr2 is None:
                continue
            c.close(B[np.ix_(fr2, fr2)], RG[np.ix_(fr2, fr2)], 'geometric stiffness of the buckling problem is that of its static solution', tol=1e-6, scale=S[np.ix_(fr2, fr2)] + 1e-9*S.max())
            c.stats['buckling problems'] += 1
    c.sig('module', str(sorted(over.items())), None if lam is None else lam.A.tobytes())
    c.note(example='module', over=over, laminate=lam is not None)

_decks = []
def decks():
    if not _decks:
        for r, ds, fs in os.walk(env.REPO):
            ds[:] = sorted(d for d in ds if not d.startswith('.'))
            _decks.extend(os.path.join(r, f) for f in sorted(fs) if f.endswith('.dat'))
    return _decks

def parsed(path):
    """GRID and CTRIA3 cards of a deck in small or large fixed fields."""
    import re
    grids, trias, other = {}, {}, []
    lines = [l.split('$')[0].rstrip('\n') for l in open(path)]
    k = 0
    def num(x):
        x = x.strip()
        if not x:
            return 0.
        x = re.sub(r'(?<=[0-9.])([+-]\d+)$', r'e\1', x)
        return float(x)
    while k < len(lines):
        l = lines[k].ljust(80); k += 1
        nm = l[:8].strip().upper()
        if nm.endswith('*'):
            f = [l[8+16*i:24+16*i] for i in range(4)]
            while k < len(lines) and lines[k].startswith('*'):
                q = lines[k].ljust(80); f += [q[8+16*i:24+16*i] for i in range(4)]; k += 1
            nm = nm[:-1]
        elif ',' in l:
            f = l.split(',')[1:] + ['']*8; nm = l.split(',')[0].strip().upper()
        else:
            f = [l[8*i:8*i+8] for i in range(1, 9)]
        if nm == 'GRID':
            grids[int(f[0])] = (f[1].strip(), [num(v) for v in f[2:5]])
        elif nm == 'CTRIA3':
            trias[int(f[0])] = [int(v) for v in f[2:5]]
        elif nm.startswith('C') and nm not in ('CEND', 'CORD2R', 'CORD1R', 'CORD2C', 'CORD2S'):
            other.append(nm)
    return grids, trias, other

def case_decks(c):
    """Every deck in the repository: read as written, analysed as the reference does."""
    rng = c.rng
    ds = decks()
    path = ds[int(rng.integers(len(ds)))]
    grids, trias, other = parsed(path)
    if other or not trias or any(cp not in ('', '0') for cp, _ in grids.values()):
        c.stats['decks skipped'] += 1
        return
    m = api().read_mesh(path)
    c.ok({k: list(t.node_ids) for k, t in m.elements.items()} == trias, 'the triangles of a shipped deck are those written', deck=path)
    c.ok(set(m.nodes) == set(grids) and all(np.abs(np.asarray(m.nodes[k].xyz) - grids[k][1]).max() <= 1e-12*(1+np.abs(grids[k][1]).max()) for k in grids), 'the nodes of a shipped deck are those written', deck=path)
    used = {n for t in trias.values() for n in t}
    mode, _ = bool(rng.integers(2)), None
    for n in m.nodes.values():
        n.prop = gen.laminate(rng)
    for t in m.elements.values():
        t.prop = gen.laminate(rng)
    K = api().calc_k0(m, mode)
    s = ref.Snap(m)
    if not s.bijective():
        return c.ok(False, 'indices of a shipped deck are a bijection', deck=path)
    R = ref.k0(s, mode)
    near(c, K, R, 'k0 of a shipped deck', deck=path)
    me = str(rng.choice(['cell-based', 'cell-based-no-smoothing']))
    al = gen.alpha_of(rng)
    api().add_k0s(K, m, mode, method=me, alpha=al)
    near(c, K, R + ref.shear(s, mode, me, al, False), 'stiffness of a shipped deck', deck=path)
    U = rng.normal(size=5*s.N)
    Rg, S = ref.kG(s, mode, U, parts=True)
    c.close(api().calc_kG(U, m, mode), Rg, 'kG of a shipped deck', tol=1e-6, scale=S + 1e-9*S.max(), deck=path)
    c.sig(os.path.relpath(path, env.REPO), mode, me, K.tobytes())
    c.stats['deck ' + os.path.relpath(path, env.REPO)] += 1
    c.note(deck=path)
