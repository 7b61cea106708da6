"""Shared workload pieces and online oracles."""
import copy, os, types
import numpy as np
from . import gen, ref, env

def api():
    """The (monitored) public functions, looked up at call time."""
    a = types.SimpleNamespace()
    a.read_mesh = env.mod('meshless.espim.read_mesh').read_mesh
    a.read_delaunay = env.mod('meshless.espim.read_mesh').read_delaunay
    a.calc_k0 = env.mod('meshless.espim.plate2d_calc_k0').calc_k0
    a.add_k0s = env.mod('meshless.espim.plate2d_add_k0s').add_k0s
    a.calc_kG = env.mod('meshless.espim.plate2d_calc_kG').calc_kG
    a.interp2 = env.mod('meshless.interpolate').interpolate_lagrange_2D
    a.interp3 = env.mod('meshless.interpolate').interpolate_lagrange_3D
    return a

def flag(rng, v):
    """A truth value the way callers have it: bool, NumPy bool, 0 or 1."""
    return (bool, bool, np.bool_, int)[int(rng.integers(4))](v)

class Problem(object):
    """A mesh with properties, ready for analysis."""
    def __init__(self, c, spec=None, mode=None, uniform=None, uncoupled=False, route=None, prop=None, units=False, thick=False, **meshkw):
        rng = c.rng
        self.c = c
        self.spec = spec if spec is not None else gen.mesh(rng, **meshkw)
        self.mesh, self.nodes, self.trias = gen.build(rng, self.spec, c.tmp, route)
        if prop is not None:
            gen.assign_uniform(self.spec, self.nodes, self.trias, prop)
            self.mode = bool(rng.random() < .5) if mode is None else mode
        else:
            self.mode, _ = gen.assign(rng, self.spec, self.nodes, self.trias, mode, uniform, uncoupled, units=units)
        if thick and rng.random() < .25:
            self.rethick(10.**rng.uniform(-6, 7))
        if rng.random() < .25:
            self.mode = (np.bool_, int)[int(rng.integers(2))](self.mode)
        self.n = self.spec.n
    def rethick(self, f):
        """Scale the thicknesses alone (they only matter for the stabilisation)."""
        new = {}
        for it in self.nodes + self.trias:
            if it.prop is not None:
                if id(it.prop) not in new:
                    q = new[id(it.prop)] = copy.copy(it.prop)
                    q.h = q.h*f
                    q.old = it.prop
                it.prop = new[id(it.prop)]
        self.c.stats['extreme thickness to size ratios'] += 1
    def snap(self):
        return ref.Snap(self.mesh)
    def idx(self):
        """index of each point position"""
        return np.array([int(n.index) for n in self.nodes])
    def dofs(self):
        i = self.idx()
        return (5*i[:, None] + np.arange(5)).ravel()
    def by_point(self, K):
        d = self.dofs()
        return K[np.ix_(d, d)]
    def vec(self, U):
        """(n,5) values per point -> vector in index order"""
        v = np.zeros(5*self.n)
        v[self.dofs()] = np.asarray(U).ravel()
        return v
    def xy(self):
        return self.spec.pts[:, :2] - self.spec.pts[self.spec.used(), :2].mean(axis=0)

def describe(c, p, **kw):
    c.note(mesh=p.spec.describe(), mode='node' if p.mode else 'element', **kw)
    c.sig(p.spec.key(), p.mode, sorted(kw.items(), key=str))
    c.stats['nodes'] += p.spec.n
    c.stats['trias'] += len(p.spec.tris)
    for k, v in p.spec.tags.items():
        if k in ('base', 'orient', 'ids', 'parts'):
            c.stats['mesh.%s=%s' % (k, v)] += 1
        elif k in ('unused', 'z', 'offset'):
            c.stats['mesh.%s' % k] += 1

# ------------------------------------------------------------- online oracles
def ref_scale(R):
    """sqrt(R_pp*R_qq) with a floor 1e-6 of the largest of each kind of dof (u, v, w, phix, phiy)."""
    d = np.sqrt(np.abs(np.diag(R)))
    n = len(d)//5
    if not n or not d.any():
        return np.full(R.shape, 1e-300)
    m = np.array([d[k::5].max() for k in range(5)])
    m = np.where(m > 0, m, 1e-3*m[m > 0].min())
    d = np.maximum(d, 1e-6*np.tile(m, n))
    return np.outer(d, d)

def group_scale(R):
    """Largest entry of each group (membrane, deflection, rotation) x (membrane, deflection, rotation)."""
    g = np.tile([0, 0, 1, 2, 2], len(R)//5)
    m = np.array([[np.abs(R[np.ix_(g == i, g == j)]).max(initial=1e-300) for j in range(3)] for i in range(3)])
    return np.maximum(m[np.ix_(g, g)], 1e-300)

def deficient(s, mode):
    """Some property in use has zeros where a real laminate has positive stiffness."""
    ps = {id(p): p for p in (s.nprop if mode else s.eprop) if p is not None}.values()
    return any(not np.all(np.diag(M) > 0) for p in ps for M in (p.A, p.D, p.E))

def watch_k0(c, tol=1e-8, what='k0 = edge-smoothed membrane/bending stiffness'):
    """Judge every calc_k0 call against the reference, on the state at the time of the call."""
    def post(ev):
        if ev.args is None or ev.exc is not None:
            return
        s = ref.Snap(ev.args['mesh'])
        if not c.ok(s.bijective(), 'node indices usable', index=[n for n in s.index][:20]):
            return
        R = ref.k0(s, bool(ev.args['prop_from_node']))
        sc = group_scale(R) if deficient(s, bool(ev.args['prop_from_node'])) else ref_scale(R)
        c.close(ev.ret, R, what, tol=tol, scale=sc, call=ev.seq)
    c.mon.subscribe('calc_k0', post=post)

def watch_kG(c, tol=2e-9, what='kG = edge-smoothed geometric stiffness'):
    def pre(args):
        return np.array(args['d'], float)
    pre.key = 'd'
    def post(ev):
        if ev.args is None or ev.exc is not None:
            return
        s = ref.Snap(ev.args['mesh'])
        if not s.bijective():
            return
        R, S = ref.kG(s, bool(ev.args['prop_from_node']), ev.pre['d'], parts=True)
        m = S.max() if S.size else 0
        c.close(ev.ret, R, what, tol=tol, scale=np.maximum(S, 1e-6*m), call=ev.seq)
    c.mon.subscribe('calc_kG', pre=pre, post=post)

METH = gen.METHODS

def watch_k0s(c, methods=METH, tol=5e-8, what='k0s increment', finding_pid=True):
    """Judge what every add_k0s call adds."""
    def pre(args):
        return np.array(args['k0'], float)
    pre.key = 'k0'
    def post(ev):
        if ev.args is None or ev.exc is not None or ev.args['method'] not in methods:
            return
        before, after = ev.pre['k0'], np.asarray(ev.args['k0'], float)
        judge_k0s(c, ev.args['mesh'], bool(ev.args['prop_from_node']), ev.args['method'], ev.args['alpha'],
                  bool(ev.args['maxl_from_area']), before, after, tol, what)
    c.mon.subscribe('add_k0s', pre=pre, post=post)

def uncoupled(s, mode):
    return all(np.asarray(p.E)[0, 1] == 0 for p in (s.nprop if mode else s.eprop) if p is not None)

def judge_k0s(c, mesh, mode, method, alpha, area_opt, before, after, tol=1e-7, what='k0s increment'):
    s = ref.Snap(mesh)
    if not s.bijective():
        return
    R = ref.shear(s, mode, method, alpha, area_opt)
    rs = group_scale if deficient(s, mode) else ref_scale
    sc = rs(R) + 1e-6*np.abs(before)     # adding to a big matrix loses digits of the increment
    inc = after - before
    if method != 'edge-based':
        return c.close(inc, R, what + ': ' + method, tol=tol, scale=sc, alpha=alpha, area=area_opt)
    c.stats['edge-based.interior' if any(len(t) == 2 for t in s.edges.values()) else 'edge-based.boundary'] += 1
    if np.all(np.abs(inc - R) <= tol*sc):
        return c.ok(True, what + ': ' + method)
    Q = ref.shear(s, mode, method, alpha, area_opt, quirk=True)
    if np.all(np.abs(inc - Q) <= tol*(rs(Q) + sc)) and np.all(np.isfinite(inc)):
        c.checks += 1
        c.stats['oracle:' + what + ' (known finding F-EDGE-B1)'] += 1
        c.finding('F-EDGE-B1', F_EDGE)
        return True
    return c.close(inc, R, what + ': ' + method, tol=tol, scale=sc, alpha=alpha, area=area_opt)

F_EDGE = ("edge-based shear stiffness of interior edges: interior_edge in plate2d_add_k0s_edge_based.py unpacks "
          "n1.xyz as 'x1, y1, y1', so the first sub-triangle uses z1 instead of y1 (observed matrices equal that, and only that, deviation)")
