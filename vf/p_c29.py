"""C29: derivation scripts, published tables and shipped code."""
import os, runpy, shutil
import numpy as np
from . import env, gen, ref
from .common import *
from .islands import islands
RULE = ('the derivation scripts (membrane, three plates) are run in a scratch directory and every table they write is executed, next to the published one, on vectors of random symbol '
        'values; both are compared with a direct B^T C B product, and assembled over the edges/triangles of random meshes they are compared with the matrices of the '
        'library; distinct by script and symbol values, or mesh, mode and options')
KINDS = [('derive_membrane', .05), ('derive_cell_based', .3), ('derive_no_smoothing', .3), ('derive_edge_based', .3), ('k0', 2), ('kG', 2), ('cell_based', 2), ('no_smoothing', 2),
         ('edge_boundary', 2), ('edge_interior', 2)]
NEED_EVENTS = ['dense', 'calc_k0', 'add_k0s', 'calc_kG']
MIN_CASES = 40
BASE = 'theory/espim/2D/plate/FSDT/transverse_shear_'
SCRIPTS = {'cell_based': ('k0', 'k0s', 'kG'), 'cell_based_no_smoothing': ('k0', 'k0s'),
           'edge_based': ('k0', 'k0s_interior_edge', 'k0s_boundary_edge'), 'membrane': ('k0',)}
PATH = lambda d: 'theory/espim/2D/membrane' if d == 'membrane' else BASE + d
_gen, _pub = {}, {}

# ------------------------------------------------------------------ tables
def compiled(text, what):
    try:
        return compile(text, what, 'exec')
    except SyntaxError as e:
        return e

def published(d):
    if d not in _pub:
        out = {}
        for t in SCRIPTS[d]:
            fn = os.path.join(env.REPO, PATH(d), 'print_%s.txt' % t)
            with open(fn) as f:
                out[t] = compiled(f.read(), fn)
        _pub[d] = out
    return _pub[d]

def generated(c, d):
    """Run the script of directory d (once per process) and read what it wrote."""
    if d not in _gen:
        w = os.path.join(c.tmp, 'derive_' + d)
        os.makedirs(w)
        src = os.path.join(env.REPO, PATH(d))
        for f in os.listdir(src):
            if f.endswith('.py'):
                shutil.copy(os.path.join(src, f), w)
        cwd = os.getcwd()
        os.chdir(w)
        try:
            runpy.run_path(os.path.join(w, 'stiffmatrices.py'), run_name='__main__')
        except (Exception, SystemExit) as e:
            c.ok(False, 'the derivation runs', script=PATH(d), error=repr(e)[:300])
        finally:
            os.chdir(cwd)
        out = {}
        for t in SCRIPTS[d]:
            fn = os.path.join(w, 'print_%s.txt' % t)
            if os.path.exists(fn):
                with open(fn) as f:
                    out[t] = compiled(f.read(), fn)
        _gen[d] = out
        c.stats['scripts run'] += 1
    return _gen[d]

NODES = {'k0': 4, 'kG': 4, 'k0s_interior_edge': 4}

class Target(object):
    """Accepts `t[i, j] += expr`, each index at most once and inside the matrix."""
    def __init__(self, n, m):
        self.a = np.zeros((n, n, m))
        self.seen = {}
    def __getitem__(self, ij):
        i, j = ij
        if not (0 <= i < len(self.a) and 0 <= j < len(self.a)):
            raise IndexError(ij)
        return self.a[i, j].copy()
    def __setitem__(self, ij, v):
        self.seen[ij] = self.seen.get(ij, 0) + 1
        self.a[ij[0], ij[1]] = v

def table(c, code, name, sym, label, n=None):
    """Execute a table on vectors of symbol values: (5n, 5n, m) or None."""
    if code is None or isinstance(code, SyntaxError):
        c.ok(False, 'tables exist and parse', table=label, error=str(code))
        return None
    n = n or NODES.get(name, 3)
    m = len(next(iter(sym.values())))
    t = Target(5*n, m)
    ns = dict(sym)
    ns.update(dof=5, i1=0, i2=1, i3=2, i4=3)
    ns[name] = t
    try:
        exec(code, ns)
    except Exception as e:
        c.ok(False, 'tables execute', table=label, error=repr(e))
        return None
    c.ok(all(v == 1 for v in t.seen.values()), 'every entry is printed once', table=label)
    c.stats['table entries executed'] += len(t.seen)*m
    return t.a

# --------------------------------------------- the matrices by plain products
def A3(s, l):
    return np.array([[s[l+'11'], s[l+'12'], s[l+'16']], [s[l+'12'], s[l+'22'], s[l+'26']], [s[l+'16'], s[l+'26'], s[l+'66']]])

def smooth(s):
    gx = np.array([sum(s['f%d%d' % (q, k)]*s['le%d' % q]*s['nx%d' % q] for q in range(1, 5)) for k in range(1, 5)])/s['Ac']
    gy = np.array([sum(s['f%d%d' % (q, k)]*s['le%d' % q]*s['ny%d' % q] for q in range(1, 5)) for k in range(1, 5)])/s['Ac']
    return gx, gy

def bcb(B, C, A):
    """A * B^T C B, with the symbol values along the last axis."""
    return np.einsum('pim,pqm,qjm,m->ijm', B, C, B, A, optimize=True)

def direct(name, s):
    m = len(s['Ac'])
    if name in ('k0', 'kG'):
        gx, gy = smooth(s)
        if name == 'kG':
            B = np.zeros((2, 20, m))
            B[0, 2::5] = gx; B[1, 2::5] = gy
            return bcb(B, np.array([[s['Nxx'], s['Nxy']], [s['Nxy'], s['Nyy']]]), s['Ac'])
        B = np.zeros((6, 20, m))
        B[0, 0::5] = gx; B[1, 1::5] = gy; B[2, 0::5] = gy; B[2, 1::5] = gx
        B[3, 3::5] = gx; B[4, 4::5] = gy; B[5, 3::5] = gy; B[5, 4::5] = gx
        a, b, d = A3(s, 'A'), A3(s, 'B'), A3(s, 'D')
        C = np.concatenate([np.concatenate([a, b], 1), np.concatenate([b, d], 1)], 0)
        return bcb(B, C, s['Ac'])
    def dsg(k, A):
        a, b, cc, d = (s['%s%d' % (x, k)] for x in 'abcd')
        z = 0*a
        B = np.array([[b-d, A, z, d, .5*a*d, .5*b*d, -b, -.5*b*cc, -.5*b*d], [cc-a, z, A, -cc, -.5*a*cc, -.5*b*cc, a, .5*a*cc, .5*a*d]])
        return B/(2*A)
    def put(Bs, A, cols, nn):
        """strains from vertices given as weights of the nodes: (2, 5nn, m)"""
        out = np.zeros((2, 5*nn, m))
        for v, w in enumerate(cols):
            for node, x in w.items():
                out[:, 5*node+2:5*node+5] += x*Bs[:, 3*v:3*v+3]
        return out*A
    one = lambda k: {k: 1.}
    mid = lambda *k: {i: 1./3 for i in k}
    E = np.array([[s['E44'], s['E45']], [s['E45'], s['E55']]])
    if name == 'k0s' and 'Ac1' not in s:
        B = put(dsg(1, s['Ac']), 1., [one(0), one(1), one(2)], 3)
        return bcb(B, E, s['Ac'])
    if name == 'k0s':
        M = mid(0, 1, 2)
        B = sum(put(dsg(k+1, s['Ac%d' % (k+1)]), s['Ac%d' % (k+1)], [M, one(k), one((k+1) % 3)], 3) for k in range(3))/s['Ac']
        return bcb(B, E, s['Ac'])
    if name == 'k0s_boundary_edge':
        B = put(dsg(1, s['Ac']), 1., [mid(0, 1, 2), one(0), one(1)], 3)
        return bcb(B, E, s['Ac'])
    B = put(dsg(1, s['Ac1']), s['Ac1'], [mid(0, 1, 2), one(0), one(1)], 4) + put(dsg(2, s['Ac2']), s['Ac2'], [one(0), mid(0, 1, 3), one(1)], 4)
    return bcb(B/s['Ac'], E, s['Ac'])

LAM = ['%s%s' % (l, k) for l in 'ABD' for k in ('11', '12', '16', '22', '26', '66')]
SM = ['%s%d' % (x, q) for x in ('nx', 'ny', 'le') for q in range(1, 5)] + ['f%d%d' % (q, k) for q in range(1, 5) for k in range(1, 5)] + ['Ac']
SH = lambda n: ['%s%d' % (x, k) for x in 'abcd' for k in range(1, n+1)] + ['E44', 'E45', 'E55', 'Ac']
def symbols(d, name):
    if name == 'k0': return SM + LAM
    if name == 'kG': return SM + ['Nxx', 'Nxy', 'Nyy']
    if d == 'cell_based': return SH(3) + ['Ac1', 'Ac2', 'Ac3']
    if d == 'cell_based_no_smoothing' or name == 'k0s_boundary_edge': return SH(1)
    return SH(2) + ['Ac1', 'Ac2']

def random_symbols(rng, names, m):
    out = {}
    for n in names:
        v = rng.uniform(.3, 2., m)*rng.choice([-1, 1], m)
        if n.startswith('Ac') or n.startswith('le'):
            v = np.abs(v)
        if n.startswith('f') and rng.random() < .2 or n[0] in 'BE' and rng.random() < .2:
            v = np.where(rng.random(m) < .5, 0., v)
        out[n] = v*float(rng.choice([1., 1., 10.]))
    return out

def derive(c, d):
    g, p = generated(c, d), published(d) if d != 'membrane' else None   # membrane: no published table
    names = SCRIPTS[d]
    c.note(script=PATH(d) + '/stiffmatrices.py', tables=list(names))
    for name in names:
        s = random_symbols(c.rng, symbols(d, name), 12)
        R = direct(name, s)
        if d == 'membrane':
            R = direct(name, dict(s, **{k: 0*v for k, v in s.items() if k in LAM and k[0] != 'A'}))
        S = np.maximum(np.abs(direct(name, {k: np.abs(v) for k, v in s.items()})), np.abs(R).max(axis=(0, 1))*1e-3)
        for label, T in [('generated', g.get(name))] + ([('published', p.get(name))] if p else []):
            K = table(c, T, name, s, '%s %s of %s' % (label, name, d))
            if K is not None:
                c.close(K, R, '%s table = B^T C B: %s %s' % (label, d, name), tol=1e-9, scale=10*S + np.abs(R).max(axis=(0, 1)))
        c.sig(d, name, *[s[k] for k in sorted(s)])
def case_derive_membrane(c): derive(c, 'membrane')
def case_derive_cell_based(c): derive(c, 'cell_based')
def case_derive_no_smoothing(c): derive(c, 'cell_based_no_smoothing')
def case_derive_edge_based(c): derive(c, 'edge_based')

# --------------------------------------------------- tables against the library
def edge_symbols(s, mode, extra=None):
    """Symbol values of every smoothing domain of a mesh, and its four node indices."""
    rows, idx = [], []
    for (a, b), ts in s.edges.items():
        r = {k: 0. for k in SM}
        t1 = ts[0]
        o1 = [n for n in s.tris[t1] if n not in (a, b)][0]
        m1 = s.xyz[list(s.tris[t1])].mean(axis=0)
        n1, n2 = a, b
        if ref.cross(s.xyz[n1]-s.xyz[n2], m1-s.xyz[n2]) > 0:      # n1 -> mid1 -> n2 is counter-clockwise
            n1, n2 = n2, n1
        P1, P2 = s.xyz[n1], s.xyz[n2]
        if len(ts) == 2:
            t2 = ts[1]
            o2 = [n for n in s.tris[t2] if n not in (a, b)][0]
            m2 = s.xyz[list(s.tris[t2])].mean(axis=0)
            segs = [(P1, m1, (2/3, 1/6, 1/6, 0)), (m1, P2, (1/6, 2/3, 1/6, 0)), (P2, m2, (1/6, 2/3, 0, 1/6)), (m2, P1, (2/3, 1/6, 0, 1/6))]
        else:
            o2 = None
            segs = [(P1, m1, (2/3, 1/6, 1/6, 0)), (m1, P2, (1/6, 2/3, 1/6, 0)), (P2, P1, (.5, .5, 0, 0))]
        for q, (p, e, f) in enumerate(segs, 1):
            d = (e-p)[:2]
            l = np.hypot(*d)
            r['le%d' % q] = l
            r['nx%d' % q], r['ny%d' % q] = d[1]/l, -d[0]/l
            for k in range(4):
                r['f%d%d' % (q, k+1)] = f[k]
        r['Ac'] = sum(s.area[t] for t in ts)/3
        ns = [n1, n2, o1] + ([] if o2 is None else [o2])
        if extra:
            r.update(extra((a, b), ts, ns))
        rows.append(r)
        idx.append(ns)
    return {k: np.array([r[k] for r in rows]) for k in rows[0]}, idx

def assemble(s, T, idx):
    K = np.zeros((5*s.N, 5*s.N))
    for m, ns in enumerate(idx):
        d = s.dofs(ns)
        q = len(d)
        K[np.ix_(d, d)] += T[:q, :q, m]
    return K

def lam_symbols(A, B, D):
    out = {}
    for l, M in zip('ABD', (A, B, D)):
        for k, (i, j) in zip(('11', '12', '16', '22', '26', '66'), ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))):
            out[l+k] = M[i, j]
    return out

def compare(c, what, d, name, s, sym, idx, got, scale, tol=1e-7):
    for label, T in (('generated', generated(c, d).get(name)), ('published', published(d).get(name))):
        K = table(c, T, name, sym, '%s %s of %s' % (label, name, d))
        if K is not None:
            c.close(got, assemble(s, K, idx), 'library %s = %s table' % (what, label), tol=tol, scale=scale)

def problem(c, **kw):
    small = c.rng.random() < .6
    if small and 'spec' not in kw:
        kw['kind'] = str(c.rng.choice(['tri1', 'rect2', 'fan', 'strip']))
    return Problem(c, **kw)

def case_k0(c):
    p = problem(c)
    k = api().calc_k0(p.mesh, p.mode)
    s = p.snap()
    sym, idx = edge_symbols(s, p.mode, lambda e, ts, ns: lam_symbols(*s.edge_prop(e, ts, p.mode, 'ABD')))
    d = str(c.rng.choice([x for x in sorted(SCRIPTS) if x != 'membrane']))
    compare(c, 'k0', d, 'k0', s, sym, idx, k, ref_scale(ref.k0(s, p.mode)))
    describe(c, p, table=d)

def case_kG(c):
    p = problem(c)
    a = api()
    a.calc_k0(p.mesh, p.mode)
    v = gen.disp(c.rng, p.n, p.spec.size())
    g = a.calc_kG(v.copy(), p.mesh, p.mode)
    s = p.snap()
    def forces(e, ts, ns):
        nn, gr, Ac = s.smoothed(ts)
        A, B = s.edge_prop(e, ts, p.mode, 'AB')
        ix = np.array([5*int(s.index[n]) for n in nn])
        u, w, px, py = v[ix], v[ix+1], v[ix+3], v[ix+4]
        gx, gy = gr[:, 0], gr[:, 1]
        N = A @ [gx @ u, gy @ w, gy @ u + gx @ w] + B @ [gx @ px, gy @ py, gy @ px + gx @ py]
        return dict(Nxx=N[0], Nyy=N[1], Nxy=N[2])
    sym, idx = edge_symbols(s, p.mode, forces)
    R, S = ref.kG(s, p.mode, v, parts=True)
    compare(c, 'kG', 'cell_based', 'kG', s, sym, idx, g, np.maximum(S, 1e-6*S.max()))
    describe(c, p, table='kG')

def shear_run(c, method, **kw):
    rng, a = c.rng, api()
    p = problem(c, uncoupled=True, **kw) if 'kind' not in kw else Problem(c, uncoupled=True, **kw)
    k = a.calc_k0(p.mesh, p.mode)
    al, ao = gen.alpha_of(rng), bool(rng.integers(2))
    got = a.add_k0s(np.zeros_like(k), p.mesh, p.mode, method=method, alpha=al, maxl_from_area=ao)
    describe(c, p, alpha=al, area=ao, method=method)
    return p, p.snap(), got, al, ao

def tri(P, i, k):
    """a, b, c, d of the sub-triangle P (three points), numbered k"""
    return {'a%d' % k: P[1][0]-P[0][0], 'b%d' % k: P[1][1]-P[0][1], 'c%d' % k: P[2][0]-P[0][0], 'd%d' % k: P[2][1]-P[0][1]}

def tria_case(c, method, d):
    p, s, got, al, ao = shear_run(c, method)
    rows = []
    for t in range(len(s.tris)):
        k13, k23, E, h = s.tria_prop(t, p.mode, ('scf_k13', 'scf_k23', 'E', 'h'))
        l = s.area[t]**.5 if ao else ref.lmax(s, t)
        f = 1/(1 + al*l**2/h**2)
        # the first strain of the derivation is gxz, its symbol is E44
        r = dict(E44=k13*E[1, 1]*f, E45=0., E55=k23*E[0, 0]*f, Ac=s.area[t])
        P = [s.xyz[n] for n in s.ccw[t]]
        if d == 'cell_based':
            m = sum(P)/3
            for k in range(3):
                r.update(tri((m, P[k], P[(k+1) % 3]), k, k+1))
                r['Ac%d' % (k+1)] = s.area[t]/3
        else:
            r.update(tri(P, 0, 1))
        rows.append(r)
    sym = {k: np.array([r[k] for r in rows]) for k in rows[0]}
    R = ref.shear(s, p.mode, method, al, ao)
    compare(c, method + ' k0s', d, 'k0s', s, sym, s.ccw, got, ref_scale(R))
def case_cell_based(c): tria_case(c, 'cell-based', 'cell_based')
def case_no_smoothing(c): tria_case(c, 'cell-based-no-smoothing', 'cell_based_no_smoothing')

def edge_case(c, **kw):
    p, s, got, al, ao = shear_run(c, 'edge-based', **kw)
    d = 'edge_based'
    def rows(quirk):
        bnd, inn = [], []
        for (a, b), ts in s.edges.items():
            m = [s.xyz[list(s.tris[t])].mean(axis=0) for t in ts]
            n1, n2 = a, b
            if ref.cross(s.xyz[n2]-s.xyz[n1], m[0]-s.xyz[n1]) < 0:
                n1, n2 = n2, n1
            P1, P2 = s.xyz[n1], s.xyz[n2]
            o = [[n for n in s.tris[t] if n not in (a, b)][0] for t in ts]
            k13, k23, E, h = s.edge_prop((a, b), ts, p.mode, ('scf_k13', 'scf_k23', 'E', 'h'))
            At = sum(s.area[t] for t in ts)/3
            lens = [np.linalg.norm(P1-P2)] + [np.linalg.norm(mm-q) for mm in m for q in (P1, P2)]
            f = 1/(1 + al*(At if ao else max(lens)**2)/h**2)
            r = dict(E44=k13*E[1, 1]*f, E45=0., E55=k23*E[0, 0]*f, Ac=At)
            r.update(tri((m[0], P1, P2), 0, 1))
            if len(ts) == 2:
                if quirk:
                    r['b1'] = P1[2]-m[0][1]
                r.update(tri((P1, m[1], P2), 0, 2))
                r['Ac1'], r['Ac2'] = s.area[ts[0]]/3, s.area[ts[1]]/3
                inn.append((r, [n1, n2] + o))
            else:
                bnd.append((r, [n1, n2] + o))
        return bnd, inn
    def total(tabs, label, quirk):
        K = np.zeros_like(got)
        for name, part in zip(('k0s_boundary_edge', 'k0s_interior_edge'), rows(quirk)):
            if part:
                sym = {k: np.array([r[k] for r, _ in part]) for k in part[0][0]}
                T = table(c, tabs.get(name), name, sym, '%s %s' % (label, name))
                if T is None:
                    return None
                K += assemble(s, T, [i for _, i in part])
        return K
    R = ref.shear(s, p.mode, 'edge-based', al, ao)
    Q = ref.shear(s, p.mode, 'edge-based', al, ao, quirk=True)
    sc = ref_scale(R)
    for label, tabs in (('generated', generated(c, d)), ('published', published(d))):
        T = total(tabs, label, False)
        if T is None:
            continue
        if np.all(np.abs(got-T) <= 1e-7*sc):
            c.ok(True, 'library edge-based k0s = %s table' % label)
            continue
        TQ = total(tabs, label, True)
        if TQ is not None and np.all(np.isfinite(got)) and np.all(np.abs(got-TQ) <= 1e-7*(sc+ref_scale(Q))):
            c.ok(True, 'library edge-based k0s = %s table, except for the known finding F-EDGE-B1' % label)
            c.finding('F-EDGE-B1', F_EDGE)
            continue
        c.close(got, T, 'library edge-based k0s = %s table' % label, tol=1e-7, scale=sc)
def case_edge_boundary(c): edge_case(c, spec=islands(c))
def case_edge_interior(c): edge_case(c, kind=str(c.rng.choice(['rect2', 'fan', 'strip', 'grid'])))
