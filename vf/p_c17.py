"""C17: results depend on the current state of one mesh only, not on history or on other analyses."""
import copy, hashlib, os, pickle, subprocess, sys, threading, time, types
import numpy as np
from . import gen, ref, env
from .common import *
RULE = ('random sessions over two or three live meshes (read, assign, stiffness of either mode, shear of every method, geometric stiffness, moved and restored '
        'coordinates, triangles taken out, replaced and mutated properties, failing calls, other meshes read in between), every result judged by the reference for the state at the '
        'time of the call and a sample by a freshly read mesh; the same analyses in a fresh interpreter (other hash seed, other order, other meshes before); thread sessions with forced preemption against the same sessions run alone; distinct by operation history')
KINDS = [('session', 5), ('nudge', 4), ('restore', 2), ('repeat', 1), ('threads', 2), ('threads_shared', 1), ('process', .12), ('repo_tests', .05)]
NEED_EVENTS = ['calc_k0', 'add_k0s', 'calc_kG', 'read_delaunay', 'read_mesh']
MIN_CASES = 40
ASSUMPTIONS = ['after coordinates change, calc_k0 is called before the other calculations on that mesh (it numbers the nodes and rebuilds the smoothing domains)',
               'interior edges of the edge-based method are judged up to the known finding F-EDGE-B1 of C12']

def digest(a):
    return hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()

class Live(object):
    """A mesh with its current state kept as plain data, so that it can be built again."""
    def __init__(self, c, spec=None, small=True, nmax=14):
        self.c = c
        rng = c.rng
        if spec is None:
            while True:
                spec = gen.mesh(rng)
                if not small or spec.n <= nmax:
                    break
        self.spec = spec.copy()
        self.route = 'deck' if rng.random() < .3 else 'delaunay'
        self.mesh, self.nodes, self.trias = gen.build(rng, self.spec, c.tmp, self.route)
        self.orig = self.spec.pts.copy()
        self.n = self.spec.n
        self.size0 = self.spec.size()
        base = gen.prop(rng, self.size0, uncoupled=True)
        self.pool = [base] + [self.uncoupled(gen.similar(rng, base, self.size0)) for _ in range(3)]
        for it in self.nodes + self.trias:
            it.prop = self.pool[int(rng.integers(len(self.pool)))]
        self.stale = True
        self.kept = []          # (matrix, digest, what)

    def uncoupled(self, p):
        """the edge-based method is only claimed without xz-yz coupling"""
        q = types.SimpleNamespace(A=np.array(p.A), B=np.array(p.B), D=np.array(p.D), E=np.diag(np.diag(np.array(p.E))), h=float(p.h),
                                  scf_k13=float(p.scf_k13), scf_k23=float(p.scf_k23))
        return q

    def move(self, pts, how=0):
        pts = np.asarray(pts, float)
        for n, x in zip(self.nodes, pts):
            if how == 0:
                n.xyz = np.array(x)
            elif how == 1:
                n.xyz[:] = x
            else:
                n.set_position(self.mesh, np.array(x))
        self.spec.pts = pts.copy()
        self.stale = True

    def drop(self, k):
        """Take a triangle out of the mesh (a cut-out), with all references kept consistent."""
        t = self.trias.pop(k)
        del self.mesh.elements[t.eid]
        for n in t.nodes:
            n.trias.discard(t.eid)
        for key, e in list(self.mesh.edges.items()):
            if any(x is t for x in e.trias):
                e.trias = [x for x in e.trias if x is not t]
                if not e.trias:
                    del self.mesh.edges[key]
                    for n in e.nodes:
                        n.edges.discard(e)
        self.spec.tris = np.delete(self.spec.tris, k, axis=0)
        del self.spec.eids[k]
        self.stale = True

    def prune(self):
        """Take the points that belong to no triangle out of the mesh."""
        used = set(self.spec.used())
        keep = [i for i in range(self.n) if i in used]
        to = {i: j for j, i in enumerate(keep)}
        for i in range(self.n):
            if i not in used:
                del self.mesh.nodes[self.nodes[i].nid]
        self.nodes = [self.nodes[i] for i in keep]
        self.spec.tris = np.array([[to[int(i)] for i in t] for t in self.spec.tris]).reshape(-1, 3)
        self.spec.pts = self.spec.pts[keep]
        self.spec.nids = [self.spec.nids[i] for i in keep]
        self.orig = self.orig[keep]
        self.n = len(keep)
        self.stale = True

    def grow(self, x):
        """A further point that belongs to no triangle (yet)."""
        nid = max(self.mesh.nodes) + 1
        nd = type(self.nodes[0])(nid, cp=0, cd=0, xyz=np.array(x, float))
        nd.trias, nd.edges, nd.index, nd.prop = set(), set(), set(), self.pool[0]
        self.mesh.nodes[nid] = nd
        self.nodes.append(nd)
        self.spec.pts = np.vstack([self.spec.pts, [x]])
        self.spec.nids.append(nid)
        self.orig = np.vstack([self.orig, [x]])
        self.n += 1
        self.stale = True

    def fresh(self):
        """A new mesh in the same state, with copies of the properties."""
        f = Live.__new__(Live)
        f.c, f.spec, f.n, f.route = self.c, self.spec.copy(), self.n, self.route
        f.mesh, f.nodes, f.trias = gen.build(self.c.rng, f.spec, self.c.tmp, self.route)
        seen = {}
        for a, b in zip(self.nodes + self.trias, f.nodes + f.trias):
            if a.prop is not None and id(a.prop) not in seen:
                seen[id(a.prop)] = copy.deepcopy(a.prop)
            b.prop = None if a.prop is None else seen[id(a.prop)]
        return f

    def keep(self, K, what):
        self.kept.append([K, digest(K), what])

    def verify_kept(self, when):
        for K, d, what in self.kept:
            self.c.ok(digest(K) == d, 'matrices already returned are not altered', altered=what, by=when)

    # judged calculations
    def k0(self, mode):
        K = api().calc_k0(self.mesh, mode)
        self.stale = False
        s = ref.Snap(self.mesh)
        R = ref.k0(s, mode)
        self.c.close(K, R, 'k0 is that of the current state', scale=ref_scale(R))
        return K
    def k0s(self, mode, method, alpha, area, into=None):
        k = np.zeros((5*self.n, 5*self.n)) if into is None else into
        before = k.copy()
        out = api().add_k0s(k, self.mesh, mode, method=method, alpha=alpha, maxl_from_area=area)
        s = ref.Snap(self.mesh)
        R = ref.shear(s, mode, method, alpha, area)
        sc = ref_scale(R) + 1e-6*np.abs(before)
        inc = out - before
        if method == 'edge-based' and not np.all(np.abs(inc - R) <= 1e-7*sc):
            R = ref.shear(s, mode, method, alpha, area, quirk=True)     # judged by C12
            sc = ref_scale(R) + sc
        self.c.close(inc, R, 'k0s is that of the current state', scale=sc, method=method)
        return out
    def kG(self, mode, d):
        K = api().calc_kG(d, self.mesh, mode)
        s = ref.Snap(self.mesh)
        R, S = ref.kG(s, mode, d, parts=True)
        self.c.close(K, R, 'kG is that of the current state', scale=np.maximum(S, 1e-6*S.max()))
        return K

def safe_move(rng, L):
    """New coordinates that keep the triangulation valid."""
    P = L.spec.pts.copy()
    c = P.mean(axis=0)
    size = L.spec.size()
    kind = str(rng.choice(['affine', 'affine', 'scale', 'rotate', 'mirror', 'shift', 'jitter', 'z']))
    Q = P.copy()
    if kind == 'affine':
        T = np.eye(2) + rng.uniform(-.4, .4, (2, 2))
        Q[:, :2] = (P[:, :2]-c[:2]) @ T.T + c[:2]
    elif kind == 'scale':
        f = rng.uniform(.3, 3)
        Q[:, :2] = (P[:, :2]-c[:2])*f + c[:2]
        Q[:, 2] *= f
    elif kind == 'rotate':
        a = rng.uniform(0, 6.3); co, s = np.cos(a), np.sin(a)
        Q[:, :2] = (P[:, :2]-c[:2]) @ np.array([[co, s], [-s, co]]) + c[:2]
    elif kind == 'mirror':
        Q[:, 0] = 2*c[0] - P[:, 0]
    elif kind == 'shift':
        Q[:, :2] += rng.uniform(-2, 2, 2)*size
    elif kind == 'z':
        Q[:, 2] += rng.normal()*size
    else:
        i = int(rng.integers(L.n))
        Q[i, :2] += rng.uniform(-.15, .15, 2)*size
    q, ar = gen.quality(Q, L.spec.tris)
    q0, ar0 = gen.quality(P, L.spec.tris)
    flip = -1 if kind == 'mirror' else 1
    if (q < .01).any() or not (np.all(np.sign(ar) == flip*np.sign(ar0)) or np.all(np.sign(ar) == np.sign(ar0))):
        return None, kind
    return Q, kind

def calc(rng, L, allow_k0s_into=True):
    """One random calculation; returns (what, fn(L) -> matrix) usable on a twin."""
    mode = bool(rng.integers(2))
    r = rng.random()
    if L.stale or r < .35:
        return ('k0', mode), lambda X: X.k0(mode)
    if r < .7:
        m, al, ar = str(rng.choice(gen.METHODS)), gen.alpha_of(rng), bool(rng.integers(2))
        return ('k0s', mode, m, al, ar), lambda X: X.k0s(mode, m, al, ar)
    d = rng.normal(size=5*L.n)*float(rng.choice([1, 1e-3]))
    return ('kG', mode, digest(d)[:6]), lambda X: X.kG(mode, d)

def against_fresh(c, L, what, fn, K):
    F = L.fresh()
    F.kept = []
    if what[0] != 'k0':
        api().calc_k0(F.mesh, bool(c.rng.integers(2)))
    Kf = fn(F)
    i, j = [np.array([int(n.index) for n in X.nodes]) for X in (L, F)]
    di, dj = [(5*v[:, None] + np.arange(5)).ravel() for v in (i, j)]
    A, B = K[np.ix_(di, di)], Kf[np.ix_(dj, dj)]
    c.close(A, B, 'equal to a freshly built mesh in that state', tol=1e-8, scale=np.maximum(ref_scale(B), 1e-8*np.abs(B).max()), call=what)

def failing(c, L):
    """A call that fails, or at least gives nothing useful; returns its name."""
    rng, a = c.rng, api()
    kind = str(rng.choice(['method', 'missing', 'short d', 'small k0', 'bad prop']))
    mode = bool(rng.integers(2))
    items = [n for n in L.nodes if n.trias] if mode else L.trias
    it = items[int(rng.integers(len(items)))]
    old = it.prop
    stale = L.stale
    try:
        if kind == 'method':
            a.add_k0s(np.zeros((5*L.n, 5*L.n)), L.mesh, mode, method='no such method')
        elif kind == 'short d':
            if not stale:
                a.calc_kG(rng.normal(size=5*max(L.n-2, 1)), L.mesh, mode)
        elif kind == 'small k0':
            if not stale:
                a.add_k0s(np.zeros((5, 5)), L.mesh, mode, method=str(rng.choice(gen.METHODS)))
        else:
            it.prop = None if kind == 'missing' else types.SimpleNamespace(A='x', B=old.B, D=old.D, E=None, h=old.h, scf_k13=1., scf_k23=1.)
            if stale or rng.random() < .5:
                a.calc_k0(L.mesh, mode)
            elif rng.random() < .5:
                a.add_k0s(np.zeros((5*L.n, 5*L.n)), L.mesh, mode, method=str(rng.choice(gen.METHODS)))
            else:
                a.calc_kG(rng.normal(size=5*L.n), L.mesh, mode)
        c.stats['failing calls that returned'] += 1
    except Exception:
        c.stats['failing calls that raised'] += 1
    finally:
        it.prop = old
    return 'fail ' + kind

def case_session(c):
    rng = c.rng
    live = [Live(c) for _ in range(int(rng.integers(2, 4)))]
    if rng.random() < .3:       # two meshes over the same triangulation sharing the property objects
        live.append(Live(c, spec=live[0].spec))
        for it, o in zip(live[-1].nodes + live[-1].trias, live[0].nodes + live[0].trias):
            it.prop = o.prop
    hist = []
    for step in range(int(rng.integers(8, 22))):
        k = int(rng.integers(len(live)))
        L = live[k]
        r = rng.random()
        if r < .58:
            what, fn = calc(rng, L)
            K = fn(L)
            if rng.random() < .3:
                against_fresh(c, L, what, fn, K)
            L.keep(K, what)
            if what[0] == 'k0' and rng.random() < .3:   # the documented in-place addition
                e = L.kept.pop()
                m = str(rng.choice(gen.METHODS))
                L.k0s(what[1], m, .08, False, into=K)
                L.keep(K, what + ('plus', m))
        elif r < .7:
            Q, kind = safe_move(rng, L)
            if Q is None:
                continue
            before = rng.random() < .4
            def all_methods():
                L.k0(bool(rng.integers(2)))
                for m in gen.METHODS:
                    L.k0s(bool(rng.integers(2)), m, gen.alpha_of(rng), rng.random() < .2)
            if before:
                all_methods()
            L.move(Q, int(rng.integers(3)))
            if before:
                all_methods()
            what = 'move ' + kind
        elif r < .76:
            L.move(L.orig, int(rng.integers(3)))
            what = 'move back'
        elif r < .84:
            items = L.nodes if rng.random() < .5 else L.trias
            q = L.uncoupled(gen.similar(rng, L.pool[0], L.size0))
            for it in items:
                if rng.random() < .4:
                    it.prop = q
            what = 'new props'
        elif r < .9:
            q = L.pool[int(rng.integers(len(L.pool)))]
            f = rng.uniform(.5, 2)
            w = int(rng.integers(3))
            if w == 0:
                for m in (q.A, q.B, q.D, q.E):
                    try:
                        m *= f
                    except ValueError:
                        pass
            elif w == 1:
                q.h *= f
            else:
                q.scf_k13 *= min(f, 1.2)
            what = 'mutate prop'
        elif r < .93:
            what = failing(c, L)
        elif r < .955:
            if rng.random() < .6 and len(L.spec.used()) < L.n:
                L.prune()
                what = 'prune points'
            else:
                L.grow(L.spec.pts[int(rng.integers(L.n))] + np.r_[rng.normal(size=2)*L.spec.size(), 0])
                what = 'grow by a point'
        elif r < .98 and len(L.trias) > 1:
            L.drop(int(rng.integers(len(L.trias))))
            what = 'drop triangle'
        else:
            live.append(Live(c))
            what = 'another mesh'
            k = len(live)-1
        hist.append((k,) + (what if isinstance(what, tuple) else (what,)))
        c.stats['op ' + str(hist[-1][1]).split()[0]] += 1
        if rng.random() < .3:
            for X in live:
                X.verify_kept(hist[-1])
    for k, L in enumerate(live):    # end of session: everything recalculated once more
        for mode in (False, True):
            L.k0(mode)
            L.kG(not mode, rng.normal(size=5*L.n))
        L.k0s(bool(rng.integers(2)), str(rng.choice(gen.METHODS)), .08, False)
        L.verify_kept('end')
    c.sig(hist, [L.spec.key() for L in live])
    c.note(history=hist, meshes=[L.spec.n for L in live])

def case_restore(c):
    """Change, calculate, restore, calculate: same as before the change."""
    rng = c.rng
    L = Live(c)
    plan = []
    L.k0(True)
    for _ in range(4):
        plan.append(calc(rng, L))
    for m in gen.METHODS:
        al = float(rng.choice([.08, .6, 5.]))*(float(L.pool[0].h)/L.size0)**2 if rng.random() < .5 else .08
        plan.append((('k0s', m), lambda X, m=m, al=al: X.k0s(False, m, al, False)))
    def run():
        out = [('k0', L.k0(bool(len(plan) % 2)))]
        for w, fn in plan:
            out.append((w, fn(L)))
        return out
    first = run()
    kept = [digest(K) for _, K in first]
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        w = int(rng.integers(3))
        if w in (0, 2):
            Q, kind = safe_move(rng, L)
            if Q is not None:
                L.move(Q, int(rng.integers(3)))
                hist.append(kind)
        old = None
        if w in (1, 2):
            q = L.uncoupled(gen.similar(rng, L.pool[0], L.size0))
            old = [it.prop for it in L.nodes + L.trias]
            for it in L.nodes + L.trias:
                if rng.random() < .5:
                    it.prop = q
            hist.append('props')
        run()
        if rng.random() < .4:
            hist.append(failing(c, L))
        L.move(L.orig, int(rng.integers(3)))
        if old is not None:
            for it, o in zip(L.nodes + L.trias, old):
                it.prop = o
        again = run()
        for (wh, A), (_, B) in zip(first, again):
            c.close(B, A, 'restored state gives the original results', tol=1e-10, scale=np.maximum(ref_scale(A), 1e-6*np.abs(A).max()), call=wh, after=hist)
    c.ok(kept == [digest(K) for _, K in first], 'matrices already returned are not altered', by=hist)
    c.sig(L.spec.key(), hist, [w for w, _ in plan])
    c.note(mesh=L.spec.describe(), changes=hist, calls=[w for w, _ in plan])

def case_nudge(c):
    """One thing of the mesh changes at a time: a node, one coordinate, the property of one item, one entry of it."""
    rng = c.rng
    L = Live(c, nmax=25)
    mode, m = bool(rng.integers(2)), str(rng.choice(gen.METHODS))
    d = rng.normal(size=5*L.n)
    al = float(rng.choice([.08, .6, 5.]))*(float(L.pool[0].h)/L.size0)**2
    for it in L.nodes + L.trias:            # own objects
        it.prop = L.uncoupled(it.prop)
    hist = []
    def run():
        L.k0(mode); L.k0s(mode, m, al, ao); L.kG(mode, d)
    ao = bool(rng.integers(2))
    run()
    for step in range(int(rng.integers(4, 9))):
        what = str(rng.choice(['node', 'coordinate', 'property', 'entry', 'mode', 'method', 'alpha', 'nothing', 'swap'], p=[.3, .15, .15, .15, .05, .05, .05, .02, .08]))
        items = L.nodes if mode else L.trias
        it = items[int(rng.integers(len(items)))]
        if what in ('node', 'coordinate'):
            i = int(rng.choice(L.spec.used()))
            e = np.array([np.hypot(*(L.spec.pts[j] - L.spec.pts[i])[:2]) for t in L.spec.tris if i in t for j in t if j != i]).min()
            Q = L.spec.pts.copy()
            v = rng.uniform(-.3, .3, 2)*e*float(rng.choice([1, 1, 1, .01, 1e-4]))
            if what == 'coordinate':
                v[int(rng.integers(2))] = 0
            Q[i, :2] += v
            a0, a1 = gen.quality(L.spec.pts, L.spec.tris)[1], gen.quality(Q, L.spec.tris)
            if (a1[0] < .01).any() or np.any(np.sign(a0) != np.sign(a1[1])):
                continue
            L.move(Q, int(rng.integers(3)))
        elif what == 'property':
            it.prop = L.uncoupled(gen.twin(rng, it.prop) if rng.random() < .5 else gen.similar(rng, it.prop, L.size0))
        elif what == 'entry':
            q = it.prop
            k = str(rng.choice(['A', 'D', 'E', 'h', 'scf_k13', 'scf_k23']))
            f = float(rng.choice([rng.uniform(1.05, 1.5), 1.001]))
            if k in ('A', 'D', 'E'):
                j = int(rng.integers(len(getattr(q, k))))
                getattr(q, k)[j, j] *= f
            else:
                setattr(q, k, getattr(q, k)*f)
        elif what == 'swap':
            jt = items[int(rng.integers(len(items)))]
            it.prop, jt.prop = jt.prop, it.prop
        elif what == 'mode':
            mode = not mode
        elif what == 'method':
            m, ao = str(rng.choice(gen.METHODS)), not ao
        elif what == 'alpha':
            al *= float(rng.choice([.5, 2, 1.01]))
        hist.append(what)
        c.stats['single changes'] += 1
        run()
    c.sig(L.spec.key(), hist)
    c.note(mesh=L.spec.describe(), changes=hist, method=m)

def case_repeat(c):
    """The same calculation many times, on a somewhat larger mesh."""
    rng = c.rng
    L = Live(c, spec=gen.mesh(rng, big=True), small=False)
    L.k0(False)
    plan = [calc(rng, L) for _ in range(3)]
    first = [fn(L) for _, fn in plan]
    dg = [digest(K) for K in first]
    order = rng.integers(0, 3, int(rng.integers(5, 10)))
    for i in order:
        w, fn = plan[i]
        K = fn(L)
        c.close(K, first[i], 'repeating a calculation gives the same matrix', tol=1e-12, scale=np.maximum(ref_scale(first[i]), 1e-6*np.abs(first[i]).max()), call=w)
        c.ok(K is not first[i] and not np.shares_memory(K, first[i]), 'repeated calls return separate matrices')
    c.ok(dg == [digest(K) for K in first], 'matrices already returned are not altered')
    c.sig(L.spec.key(), [w for w, _ in plan], order.tolist())
    c.note(mesh=L.spec.describe(), calls=[w for w, _ in plan])

# ------------------------------------------------------------------- threads
def quiet_ops(rng, L, n, k0_allowed=True):
    """Unjudged operations as data, to be run in any thread on any twin."""
    ops = [('k0', bool(rng.integers(2)))] if k0_allowed else []
    for _ in range(n):
        r = rng.random()
        mode = bool(rng.integers(2))
        if r < .3 and k0_allowed:
            ops.append(('k0', mode))
        elif r < .65:
            ops.append(('k0s', mode, str(rng.choice(gen.METHODS)), gen.alpha_of(rng), bool(rng.integers(2))))
        else:
            ops.append(('kG', mode, rng.normal(size=5*L.n)))
    return ops

def perform(L, op):
    a = api()
    if op[0] == 'k0':
        return a.calc_k0(L.mesh, op[1])
    if op[0] == 'k0s':
        return a.add_k0s(np.zeros((5*L.n, 5*L.n)), L.mesh, op[1], method=op[2], alpha=op[3], maxl_from_area=op[4])
    return a.calc_kG(op[2], L.mesh, op[1])

def run_threads(c, jobs, reread):
    """jobs: list of (Live, ops); returns results per job, running them concurrently with forced preemption."""
    rng = c.rng
    root = os.path.realpath(os.path.join(env.REPO, 'meshless')) + os.sep
    seeds = rng.integers(2**31, size=len(jobs))
    out, errs = [None]*len(jobs), []
    gate = threading.Barrier(len(jobs))
    p = float(rng.choice([.005, .05, .3]))
    budget = 1500
    counts = [0]*len(jobs)
    def body(k):
        L, ops = jobs[k]
        r = np.random.default_rng(seeds[k])
        coin = r.random(4096)
        st = [0]
        def tracer(frame, event, arg):
            # profile events (calls, returns, calls into C) of the library's own frames
            if frame.f_code.co_filename.startswith(root):
                st[0] += 1
                if coin[st[0] % 4096] < p and counts[k] < budget:
                    counts[k] += 1
                    time.sleep(0 if st[0] % 8 else 2e-5)
        try:
            gate.wait(20)
            sys.setprofile(tracer)
            if reread:
                L = L.fresh()
            out[k] = [perform(L, op) for op in ops]
            if reread:
                out[k].append(np.array([int(n.index) for n in L.nodes]))
        except BaseException as e:
            errs.append((k, e))
        finally:
            sys.setprofile(None)
    old = sys.getswitchinterval()
    c.mon.trace = []
    try:
        sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
        ts = [threading.Thread(target=body, args=(k,)) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        tr, c.mon.trace = c.mon.trace, None
    ids = {}
    order = [(ids.setdefault(t, len(ids)), k, n) for _, t, k, n in tr]
    open_, over = set(), 0
    for t, k, n in order:
        if k == 'call':
            over += bool(open_ - {t})
            open_.add(t)
        else:
            open_.discard(t)
    c.stats['calls overlapping another thread'] += over
    c.stats['forced preemptions'] += sum(counts)
    c.stats['thread runs'] += 1
    return out, errs, order

def same(c, A, B, what, **kw):
    return c.close(A, B, what, tol=1e-10, scale=np.maximum(ref_scale(B) if B.ndim == 2 else np.abs(B), 1e-7*np.abs(B).max()), **kw)

def case_threads(c):
    rng = c.rng
    n = int(rng.integers(2, 5))
    base = Live(c, nmax=8)
    lives = [base]
    for _ in range(n-1):
        L = Live(c, spec=base.spec if rng.random() < .4 else None, nmax=8)
        if rng.random() < .3 and L.n == base.n:
            for it, o in zip(L.nodes + L.trias, base.nodes + base.trias):
                it.prop = o.prop
        lives.append(L)
    jobs = [(L, quiet_ops(rng, L, int(rng.integers(3, 7)))) for L in lives]
    alone = [[perform(L, op) for op in ops] for L, ops in jobs]
    for L in lives:     # the alone results must themselves be right: judged on the way
        L.stale = False
        L.kG(bool(rng.integers(2)), rng.normal(size=5*L.n))
    reread = bool(rng.random() < .5) and all(L.route == 'delaunay' for L in lives)
    out, errs, order = run_threads(c, jobs, reread)
    if not c.ok(not errs, 'no failure when run concurrently', errors=[repr(e) for _, e in errs]):
        return
    for k, (L, ops) in enumerate(jobs):
        for q, op in enumerate(ops):
            A, B = out[k][q], alone[k][q]
            if reread:
                i, j = np.array([int(x.index) for x in L.nodes]), out[k][-1]
                di, dj = [(5*v[:, None] + np.arange(5)).ravel() for v in (i, j)]
                A, B = A[np.ix_(dj, dj)], B[np.ix_(di, di)]
            same(c, A, B, 'concurrent analyses give the results of the same analyses run alone', thread=k, call=op[:2])
    c.sig(order, [L.spec.key() for L in lives])
    c.note(threads=n, calls=[[o[0] for o in ops] for _, ops in jobs], observed_order=[(t, k, nm) for t, k, nm in order][:40])

def case_threads_shared(c):
    """Shear and geometric stiffness of one numbered mesh from several threads."""
    rng = c.rng
    L = Live(c, nmax=10)
    L.k0(bool(rng.integers(2)))
    jobs = [(L, quiet_ops(rng, L, int(rng.integers(3, 6)), k0_allowed=False)) for _ in range(int(rng.integers(2, 4)))]
    alone = [[perform(L, op) for op in ops] for _, ops in jobs]
    out, errs, order = run_threads(c, jobs, False)
    if not c.ok(not errs, 'no failure when run concurrently', errors=[repr(e) for _, e in errs]):
        return
    for k, (_, ops) in enumerate(jobs):
        for q, op in enumerate(ops):
            same(c, out[k][q], alone[k][q], 'concurrent calculations on one mesh give the results of the same ones run alone', thread=k, call=op[:2])
    c.sig(order, L.spec.key())
    c.note(threads=len(jobs), mesh=L.spec.describe(), calls=[[o[0] for o in ops] for _, ops in jobs])

CHILD = """
import pickle, sys, types
import numpy as np
from meshless.espim.read_mesh import read_delaunay
from meshless.espim.plate2d_calc_k0 import calc_k0
from meshless.espim.plate2d_calc_kG import calc_kG
from meshless.espim.plate2d_add_k0s import add_k0s
def run(job):
    m = read_delaunay(job['pts'], types.SimpleNamespace(simplices=job['tris']))
    P = [types.SimpleNamespace(**q) for q in job['props']]
    ns, ts = list(m.nodes.values()), list(m.elements.values())
    for it, k in zip(ns + ts, job['which']):
        it.prop = P[k]
    out = []
    K = calc_k0(m, job['mode0'])
    ix = (5*np.array([int(n.index) for n in ns])[:, None] + np.arange(5)).ravel()
    out.append(K[np.ix_(ix, ix)])
    for call in job['calls']:
        if call[0] == 'k0s':
            K = np.zeros((5*len(ns), 5*len(ns)))
            add_k0s(K, m, call[1], method=call[2], alpha=call[3], maxl_from_area=call[4])
        elif call[0] == 'k0':
            K = calc_k0(m, call[1])
        else:
            d = np.zeros(5*len(ns)); d[ix] = call[2]
            K = calc_kG(d, m, call[1])
        out.append(K[np.ix_(ix, ix)])
    return out
"""
CHILD_MAIN = """
if __name__ == '__main__':
    jobs, order = pickle.load(open(sys.argv[1], 'rb'))
    res = {}
    for k in order:
        res[k] = run(jobs[k])
    pickle.dump(res, open(sys.argv[2], 'wb'))
"""
def case_process(c):
    """Some analyses here and in a fresh interpreter, in another order and among others."""
    rng = c.rng
    jobs = []
    for _ in range(6):
        L = Live(c, nmax=20)
        sp = L.spec
        which = [int(rng.integers(len(L.pool))) for _ in range(sp.n + len(sp.tris))]
        calls = []
        for _ in range(int(rng.integers(2, 6))):
            mode, r = bool(rng.integers(2)), rng.random()
            if r < .5:
                calls.append(('k0s', mode, str(rng.choice(gen.METHODS)), float(gen.alpha_of(rng)), bool(rng.integers(2))))
            elif r < .7:
                calls.append(('k0', mode))
            else:
                calls.append(('kG', mode, rng.normal(size=5*sp.n)))
        jobs.append(dict(pts=np.array(sp.pts), tris=np.array(sp.tris), props=[dict(vars(q)) for q in L.pool], which=which, mode0=bool(rng.integers(2)), calls=calls))
    g = {'__name__': 'child'}
    exec(CHILD, g)
    here = [g['run'](j) for j in jobs]
    again = g['run'](jobs[0])
    order = [int(k) for k in rng.permutation(len(jobs))][:int(rng.integers(1, len(jobs) + 1))]
    fin, fout = os.path.join(c.tmp, 'jobs'), os.path.join(c.tmp, 'results')
    with open(fin, 'wb') as f:
        pickle.dump((jobs, order), f)
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(int(rng.integers(1, 10**6))), PYTHONPATH=env.REPO)
    r = subprocess.run([sys.executable] + (['-O'] if rng.random() < .5 else []) + ['-c', CHILD + CHILD_MAIN, fin, fout], cwd=c.tmp, capture_output=True, text=True, env=e)
    if not c.ok(r.returncode == 0, 'the analyses run in a fresh interpreter', stderr=r.stderr[-600:]):
        return
    there = pickle.load(open(fout, 'rb'))
    for k, a in [(k, there[k]) for k in order] + [(0, again)]:
        for A, B, what in zip(a, here[k], [('k0', jobs[k]['mode0'])] + jobs[k]['calls']):
            c.close(A, B, 'the same in another process', tol=1e-8, scale=np.maximum(ref_scale(B), 1e-8*np.abs(B).max()), call=str(what[:5])[:120])
    c.stats['processes'] += 1
    c.stats['matrices from other processes'] += sum(len(there[k]) for k in order)
    c.sig('process', order, [j['pts'].tobytes() for j in jobs])
    c.note(order=order, meshes=[len(j['pts']) for j in jobs])

def case_repo_tests(c):
    from .repotests import run_espim
    watch_k0(c, what='k0 is that of the current state')
    watch_kG(c, what='kG is that of the current state')
    run_espim(c)
