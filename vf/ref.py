"""Independent reference models, written from the theory (gradients of linear triangles)."""
import numpy as np

class Snap(object):
    """Plain-array picture of a mesh at one moment, taken from public attributes."""
    def __init__(self, mesh):
        nodes = list(mesh.nodes.values())
        self.nid = [n.nid for n in nodes]
        pos = {nid: i for i, nid in enumerate(self.nid)}
        self.xyz = np.array([np.array(n.xyz, float) for n in nodes]).reshape(-1, 3)
        self.index = [n.index for n in nodes]
        self.nprop = [n.prop for n in nodes]
        els = list(mesh.elements.values())
        self.tris = [[pos[i] for i in e.node_ids] for e in els]
        self.eprop = [e.prop for e in els]
        self.N = len(nodes)
        self.setup()
        self.order_edges(mesh)

    @classmethod
    def of(cls, xyz, tris, nprop=None, eprop=None):
        s = cls.__new__(cls)
        s.xyz = np.asarray(xyz, float)
        s.N = len(s.xyz)
        s.tris = [list(map(int, t)) for t in tris]
        s.index = list(range(s.N))
        s.nid = list(range(1, s.N+1))
        s.nprop, s.eprop = nprop, eprop
        s.setup()
        return s

    def setup(self):
        # counter-clockwise corners, area, gradients of the shape functions
        self.ccw, self.area, self.grad = [], [], []
        for t in self.tris:
            a, b, c = t
            pa, pb, pc = self.xyz[a, :2], self.xyz[b, :2], self.xyz[c, :2]
            d = (pb[0]-pa[0])*(pc[1]-pa[1]) - (pb[1]-pa[1])*(pc[0]-pa[0])
            if d < 0:
                a, b, c = b, a, c
                pa, pb = pb, pa
                d = -d
            self.ccw.append((a, b, c))
            self.area.append(.5*d)
            self.grad.append(np.array([[pb[1]-pc[1], pc[0]-pb[0]], [pc[1]-pa[1], pa[0]-pc[0]], [pa[1]-pb[1], pb[0]-pa[0]]])/d)
        e = {}
        for k, (a, b, c) in enumerate(self.tris):
            for p, q in ((a, b), (b, c), (c, a)):
                e.setdefault((min(p, q), max(p, q)), []).append(k)
        self.edges = e

    def order_edges(self, mesh):
        """Take the order of the two triangles of an interior edge (it decides the anchor of
        the edge-based shear formulation) from the mesh."""
        eid = {k: i for i, k in enumerate(mesh.elements)}
        pos = {n: i for i, n in enumerate(self.nid)}
        for (n1, n2), ed in mesh.edges.items():
            k = tuple(sorted((pos[n1], pos[n2])))
            ts = [eid[t.eid] for t in ed.trias]
            if k in self.edges and sorted(ts) == sorted(self.edges[k]):
                self.edges[k] = ts

    def bijective(self):
        try:
            return sorted(int(i) for i in self.index) == list(range(self.N))
        except (TypeError, ValueError):
            return False

    def dofs(self, nodes):
        return np.array([5*int(self.index[n]) + k for n in nodes for k in range(5)])

    # -- properties of an edge domain / triangle
    def edge_prop(self, edge, ts, mode, names):
        out = []
        if mode:
            a, b = edge
            w = {}
            ar = sum(self.area[t] for t in ts)
            if len(ts) == 1:
                corners = [[a], [b], list(self.tris[ts[0]])]
            else:
                corners = [[a], [b], list(self.tris[ts[0]]), list(self.tris[ts[1]])]
            for c in corners:
                for n in c:
                    w[n] = w.get(n, 0.) + 1./len(c)/len(corners)
            for nm in names:
                out.append(sum(wt*np.asarray(getattr(self.nprop[n], nm)) for n, wt in w.items()))
        else:
            tot = sum(self.area[t] for t in ts)
            for nm in names:
                out.append(sum((self.area[t]/tot)*np.asarray(getattr(self.eprop[t], nm)) for t in ts))
        return out

    def tria_prop(self, t, mode, names):
        if mode:
            return [sum(np.asarray(getattr(self.nprop[n], nm)) for n in self.tris[t])/3. for nm in names]
        return [np.asarray(getattr(self.eprop[t], nm)) for nm in names]

    # -- smoothed gradients: list of nodes, dN/dx, dN/dy, domain area
    def smoothed(self, ts):
        tot = sum(self.area[t] for t in ts)
        g = {}
        for t in ts:
            for n, gr in zip(self.ccw[t], self.grad[t]):
                g[n] = g.get(n, 0.) + gr*(self.area[t]/tot)
        ns = sorted(g)
        return ns, np.array([g[n] for n in ns]), tot/3.

def k0(s, mode):
    K = np.zeros((5*s.N, 5*s.N))
    for e, ts in s.edges.items():
        ns, g, Ac = s.smoothed(ts)
        A, B, D = s.edge_prop(e, ts, mode, 'ABD')
        Bm = np.zeros((6, 5*len(ns)))
        gx, gy = g[:, 0], g[:, 1]
        Bm[0, 0::5] = gx; Bm[1, 1::5] = gy; Bm[2, 0::5] = gy; Bm[2, 1::5] = gx
        Bm[3, 3::5] = gx; Bm[4, 4::5] = gy; Bm[5, 3::5] = gy; Bm[5, 4::5] = gx
        C = np.block([[A, B], [B, D]])
        d = s.dofs(ns)
        K[np.ix_(d, d)] += Ac*Bm.T @ C @ Bm
    return K

def kG(s, mode, d, parts=False):
    K = np.zeros((5*s.N, 5*s.N))
    S = np.zeros((5*s.N, 5*s.N))
    d = np.asarray(d, float)
    for e, ts in s.edges.items():
        ns, g, Ac = s.smoothed(ts)
        A, B = s.edge_prop(e, ts, mode, 'AB')
        ix = np.array([5*int(s.index[n]) for n in ns])
        u, v, px, py = d[ix], d[ix+1], d[ix+3], d[ix+4]
        gx, gy = g[:, 0], g[:, 1]
        em = np.array([gx @ u, gy @ v, gy @ u + gx @ v])
        kb = np.array([gx @ px, gy @ py, gy @ px + gx @ py])
        N = A @ em + B @ kb
        M = np.array([[N[0], N[2]], [N[2], N[1]]])
        K[np.ix_(ix+2, ix+2)] += Ac*g @ M @ g.T
        # magnitude of what was summed, for tolerances
        ab = lambda a, x: np.abs(a) @ np.abs(x)
        mag = np.abs(A) @ np.array([ab(gx, u), ab(gy, v), ab(gy, u) + ab(gx, v)]) + np.abs(B) @ np.array([ab(gx, px), ab(gy, py), ab(gy, px) + ab(gx, py)])
        m = mag.max()
        gn = np.linalg.norm(g, axis=1)
        S[np.ix_(ix+2, ix+2)] += Ac*m*np.outer(gn, gn)
    return (K, S) if parts else K

# --- discrete shear gap triangle: rows gxz, gyz; columns (w, phix, phiy) of 3 vertices,
# anchored at the first one; a,b = second-first, c,d = third-first
def dsg(p1, p2, p3):
    a, b = p2[0]-p1[0], p2[1]-p1[1]
    c, d = p3[0]-p1[0], p3[1]-p1[1]
    A2 = a*d - b*c          # twice the area (counter-clockwise positive)
    Bs = np.zeros((2, 9))
    Bs[0] = [b-d, .5*A2, 0, d, .5*a*d, .5*b*d, -b, -.5*b*c, -.5*b*d]
    Bs[1] = [c-a, 0, .5*A2, -c, -.5*a*c, -.5*b*c, a, .5*a*c, .5*a*d]
    return Bs/A2, .5*A2

def cell_bs(s, t):
    """Area-averaged DSG strains of the three centroid sub-triangles: (2, 9) on the ccw corners."""
    c = s.ccw[t]
    P = [s.xyz[n, :2] for n in c]
    m = (P[0]+P[1]+P[2])/3
    tot, Bt = 0., np.zeros((2, 9))
    for i in range(3):
        j = (i+1) % 3
        Bs, A = dsg(m, P[i], P[j])
        M = np.zeros((9, 9))            # sub-triangle dofs from corner dofs
        for k in range(3):
            M[0:3, 3*k:3*k+3] += np.eye(3)/3
        M[3:6, 3*i:3*i+3] += np.eye(3)
        M[6:9, 3*j:3*j+3] += np.eye(3)
        Bt += A*Bs @ M
        tot += A
    return Bt/tot

def ns_bs(s, t):
    """Plain DSG triangle anchored at the first corner; clockwise ones get their first two corners swapped."""
    P = [s.xyz[n, :2] for n in s.ccw[t]]
    return dsg(*P)[0]

def lmax(s, t):
    P = s.xyz[list(s.tris[t])]
    return max(np.linalg.norm(P[i]-P[(i+1) % 3]) for i in range(3))

def shear_tria(s, mode, bs, alpha, area_opt):
    K = np.zeros((5*s.N, 5*s.N))
    for t in range(len(s.tris)):
        k13, k23, E, h = s.tria_prop(t, mode, ('scf_k13', 'scf_k23', 'E', 'h'))
        A = s.area[t]
        l = A**.5 if area_opt else lmax(s, t)
        f = 1./(1 + alpha*l**2/h**2)
        G = np.diag([k13*E[1, 1]*f, k23*E[0, 0]*f])
        B = bs(s, t)
        d = np.array([5*int(s.index[n])+k for n in s.ccw[t] for k in (2, 3, 4)])
        K[np.ix_(d, d)] += A*B.T @ G @ B
    return K

def shear_edge(s, mode, alpha, area_opt, quirk=False):
    """Edge-smoothed DSG.  quirk=True reproduces known finding F-EDGE-B1: on interior edges the
    y component of the first vector of the first sub-triangle uses the node's z."""
    K = np.zeros((5*s.N, 5*s.N))
    for (a, b), ts in s.edges.items():
        ns = sorted({n for t in ts for n in s.tris[t]})
        col = {n: i for i, n in enumerate(ns)}
        tot, Bt, At = 0., np.zeros((2, 3*len(ns))), sum(s.area[t] for t in ts)/3
        mids = {t: s.xyz[list(s.tris[t])].mean(axis=0) for t in ts}
        lens = [np.linalg.norm(s.xyz[a]-s.xyz[b])]
        # the first triangle is taken with (mid1, n1, n2) counter-clockwise; n1 is the anchor
        # of the second sub-triangle (n1, mid2, n2)
        t0 = ts[0]
        n1, n2 = a, b
        if cross(s.xyz[n2]-s.xyz[n1], mids[t0]-s.xyz[n1]) < 0:
            n1, n2 = n2, n1
        for q, t in enumerate(ts):
            m = mids[t]
            lens += [np.linalg.norm(m-s.xyz[a]), np.linalg.norm(m-s.xyz[b])]
            Ms = {}
            Mm = np.zeros((3, 3*len(ns)))
            for n in s.tris[t]:
                Mm[:, 3*col[n]:3*col[n]+3] += np.eye(3)/3
            M1 = np.zeros((3, 3*len(ns))); M1[:, 3*col[n1]:3*col[n1]+3] = np.eye(3)
            M2 = np.zeros((3, 3*len(ns))); M2[:, 3*col[n2]:3*col[n2]+3] = np.eye(3)
            A = s.area[t]/3
            if q == 0:
                if quirk and len(ts) == 2:
                    Bs = dsg_raw(s.xyz[n1, 0]-m[0], s.xyz[n1, 2]-m[1], s.xyz[n2, 0]-m[0], s.xyz[n2, 1]-m[1], A)
                else:
                    Bs = dsg(m, s.xyz[n1], s.xyz[n2])[0]
                Bt += A*Bs @ np.vstack([Mm, M1, M2])
            else:
                Bs = dsg(s.xyz[n1], m, s.xyz[n2])[0]
                Bt += A*Bs @ np.vstack([M1, Mm, M2])
            tot += A
        Bt /= tot
        k13, k23, E, h = s.edge_prop((a, b), ts, mode, ('scf_k13', 'scf_k23', 'E', 'h'))
        l = At**.5 if area_opt else max(lens)
        f = 1./(1 + alpha*l**2/h**2)
        G = np.diag([k13*E[1, 1]*f, k23*E[0, 0]*f])
        d = np.array([5*int(s.index[n])+k for n in ns for k in (2, 3, 4)])
        K[np.ix_(d, d)] += At*Bt.T @ G @ Bt
    return K

def dsg_raw(a, b, c, d, A):
    """DSG matrix with independent entries (used for the known finding only)."""
    Bs = np.zeros((2, 9))
    Bs[0] = [b-d, A, 0, d, .5*a*d, .5*b*d, -b, -.5*b*c, -.5*b*d]
    Bs[1] = [c-a, 0, A, -c, -.5*a*c, -.5*b*c, a, .5*a*c, .5*a*d]
    return Bs/(2*A)

def cross(a, b):
    return a[0]*b[1]-a[1]*b[0]

def shear(s, mode, method, alpha, area_opt, quirk=False):
    if method == 'cell-based':
        return shear_tria(s, mode, cell_bs, alpha, area_opt)
    if method == 'cell-based-no-smoothing':
        return shear_tria(s, mode, ns_bs, alpha, area_opt)
    return shear_edge(s, mode, alpha, area_opt, quirk)

def lagrange_weights(x, nodes, loop=None, skip=None):
    """(K, M) matrix of Lagrange basis values, in extended precision."""
    x = np.atleast_1d(np.asarray(x, np.longdouble))
    nd = np.asarray(nodes, np.longdouble)
    W = np.ones((len(x), len(nd)), np.longdouble)
    for m in range(len(nd)):
        for i in range(len(nd)):
            if i != m:
                W[:, m] *= (x-nd[i])/(nd[m]-nd[i])
    return W

def lagrange_z_quirk(z, z_nodes, y_nodes):
    """Known finding F-LAG3: the products in z run over y_nodes."""
    z = np.atleast_1d(np.asarray(z, np.longdouble))
    zn, yn = np.asarray(z_nodes, np.longdouble), np.asarray(y_nodes, np.longdouble)
    W = np.ones((len(z), len(zn)), np.longdouble)
    for p in range(len(zn)):
        for k in range(len(yn)):
            if k != p and zn[p]-yn[k] != 0:
                W[:, p] *= (z-yn[k])/(zn[p]-yn[k])
    return W
