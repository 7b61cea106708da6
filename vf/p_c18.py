"""C18: no side effects on caller data, output, files or global settings."""
import copy, gc, hashlib, io, locale, logging, os, random, signal, subprocess, sys, threading, types, warnings
import numpy as np
from scipy.spatial import Delaunay
from . import gen, lagr, ref, env
from .common import *
RULE = ('every public call made with lists, tuples, arrays, views, Fortran-ordered and read-only arguments, succeeding and failing; snapshots of all arguments '
        'and of the process-wide state around every call, output captured at file-descriptor level, file operations recorded by an interpreter audit hook; '
        'distinct by call, argument form and input')
KINDS = [('arrays', 3), ('deck', 2), ('analysis', 5), ('interpolation', 3), ('failing', 4), ('imports', .1), ('large', .06)]
NEED_EVENTS = ['calc_k0', 'add_k0s', 'calc_kG', 'read_delaunay', 'read_mesh', 'interp2', 'interp3']
MIN_CASES = 60

# ------------------------------------------------------------ digests
def dig(x, h=None, seen=None, depth=0):
    top = h is None
    h = h or hashlib.sha1()
    seen = set() if seen is None else seen
    if isinstance(x, np.ndarray):
        h.update(('a%s%s' % (x.dtype, x.shape)).encode())
        if x.dtype == object:
            for y in x.ravel():
                dig(y, h, seen, depth+1)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
        h.update(b'w' if x.flags.writeable else b'r')
    elif isinstance(x, (list, tuple)):
        h.update(type(x).__name__.encode() + str(len(x)).encode())
        for y in x:
            dig(y, h, seen, depth+1)
    elif isinstance(x, dict):
        for k in x:
            h.update(repr(k).encode()); dig(x[k], h, seen, depth+1)
    elif isinstance(x, (int, float, complex, str, bytes, bool, np.generic)) or x is None:
        h.update((type(x).__name__ + repr(x)).encode())
    elif id(x) in seen or depth > 8:
        h.update(b'seen')
    elif hasattr(x, '__dict__'):
        seen.add(id(x))
        h.update(type(x).__name__.encode())
        for k in sorted(vars(x)):
            h.update(k.encode()); dig(vars(x)[k], h, seen, depth+1)
    else:
        h.update(type(x).__name__.encode())
    return h.hexdigest() if top else None

def mesh_state(m):
    """What a calculation must not touch: geometry, connectivity, properties."""
    return dict(
        xyz=[np.array(n.xyz, float).tobytes() for n in m.nodes.values()], nid=list(m.nodes),
        els=[(e, tuple(t.node_ids), tuple(n.nid for n in t.nodes)) for e, t in m.elements.items()],
        props=[id(n.prop) for n in m.nodes.values()] + [id(t.prop) for t in m.elements.values()],
        edges=[(k, tuple(t.eid for t in e.trias), tuple(n.nid for n in e.nodes)) for k, e in m.edges.items()],
        inc=[(tuple(sorted(n.trias)), tuple(sorted(tuple(sorted(e.node_ids)) for e in n.edges))) for n in m.nodes.values()])

def global_state():
    st = np.random.get_state()
    po = np.get_printoptions()
    return dict(np_random=(st[0], st[1].tobytes(), st[2:]), random=hash(random.getstate()), np_err=np.geterr(), np_errcall=np.geterrcall(),
                printoptions={k: repr(v) for k, v in po.items()}, warnings=[repr(f) for f in warnings.filters], cwd=os.getcwd(), environ=dict(os.environ),
                sys_path=list(sys.path), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), gc=gc.isenabled(),
                threads=threading.active_count(), locale=locale.setlocale(locale.LC_ALL), sigint=signal.getsignal(signal.SIGINT),
                root_level=logging.root.level, root_handlers=len(logging.root.handlers), stdout=id(sys.stdout), stderr=id(sys.stderr),
                excepthook=id(sys.excepthook), showwarning=id(warnings.showwarning), bufsize=np.getbufsize(), trace=sys.gettrace(), profile=sys.getprofile())

# ------------------------------------------------------------ file operations
_rec = None
_installed = False
_writes = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink', 'os.chmod', 'os.utime', 'os.putenv', 'os.chdir',
           'shutil.copyfile', 'shutil.rmtree', 'shutil.move', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'subprocess.Popen', 'os.system', 'os.exec',
           'os.posix_spawn', 'os.fork', 'socket.connect', 'socket.bind')
def hook(event, args):
    if _rec is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int):
            return
        w = (isinstance(mode, str) and any(ch in mode for ch in 'wax+')) or (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        _rec.append(('write ' if w else 'read ') + str(path))
    elif event in _writes:
        _rec.append('write %s %s' % (event, args))

class Watch(object):
    """Everything around one call."""
    def __init__(self, c, inputs, mesh=None, what='', output=True):
        global _installed
        if not _installed:
            sys.addaudithook(hook)
            _installed = True
        self.c, self.inputs, self.mesh, self.what, self.output = c, inputs, mesh, what, output
    def __enter__(self):
        global _rec
        c = self.c
        self.before = {k: dig(v) for k, v in self.inputs.items()}
        self.mbefore = mesh_state(self.mesh) if self.mesh is not None else None
        self.cw = warnings.catch_warnings()
        self.cw.__enter__()
        warnings.resetwarnings()
        for w in (DeprecationWarning, PendingDeprecationWarning, ImportWarning, ResourceWarning):
            warnings.simplefilter('ignore', w)
        self.old_err = np.geterr()
        # unusual but legal settings, so that a reset to the defaults is noticed
        r = c.rng
        self.old_print = np.get_printoptions()
        np.seterr(**{k: str(r.choice(['ignore', 'warn'])) for k in ('divide', 'over', 'under', 'invalid')})
        np.set_printoptions(precision=int(r.integers(3, 12)), linewidth=int(r.integers(60, 120)))
        np.random.seed(int(r.integers(2**31))); random.seed(int(r.integers(2**31)))
        self.tree = listing(c.tmp)
        self.f = open(os.path.join(os.path.dirname(c.tmp), os.path.basename(c.tmp) + '.out'), 'w+b')
        self.name = self.f.name
        self.fds = os.dup(1), os.dup(2)
        self.std = sys.stdout, sys.stderr
        self.text = io.StringIO()
        os.dup2(self.f.fileno(), 1); os.dup2(self.f.fileno(), 2)
        sys.stdout = sys.stderr = self.text
        self.g = global_state()
        _rec = self.rec = []
        return self
    def __exit__(self, et, ev, tb):
        global _rec
        _rec = None
        g = global_state()
        sys.stdout, sys.stderr = self.std
        os.dup2(self.fds[0], 1); os.dup2(self.fds[1], 2)
        os.close(self.fds[0]); os.close(self.fds[1])
        self.f.seek(0)
        raw = self.f.read().decode(errors='replace') + self.text.getvalue()
        self.f.close(); os.unlink(self.name)
        np.seterr(**self.old_err)
        np.set_printoptions(**self.old_print)
        self.cw.__exit__(None, None, None)
        c = self.c
        c.stats['watched: ' + self.what.split()[0]] += 1
        for k, v in self.inputs.items():
            c.ok(dig(v) == self.before[k], 'arguments are left unchanged', argument=k, call=self.what)
        if self.mesh is not None:
            m = mesh_state(self.mesh)
            for k in m:
                c.ok(m[k] == self.mbefore[k], 'mesh geometry, connectivity and properties are left unchanged', part=k, call=self.what)
        diff = [k for k in g if g[k] != self.g[k]]
        c.ok(not diff, 'process-wide state is left unchanged', changed=diff, before=[self.g[k] for k in diff][:2] if 'np_random' not in diff else '', call=self.what)
        if self.output:
            c.ok(raw == '', 'nothing is printed', output=raw[:200], call=self.what)
        wr = [x for x in self.rec if x.startswith('write') and '/dev/null' not in x]
        c.ok(not wr, 'no file is written', operations=wr[:4], call=self.what)
        t = listing(c.tmp)
        c.ok(t == self.tree, 'the directory is left unchanged', new=sorted(set(t) ^ set(self.tree))[:4], call=self.what)
        c.stats['files read'] += len(self.rec) - len(wr)
        if et is not None and issubclass(et, Exception) and not self.output:
            c.stats['failing calls that raised'] += 1
            return True
        return False

def listing(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as fh:
                out[p] = (hashlib.sha1(fh.read()).hexdigest(), os.stat(p).st_mtime_ns)
    return out

# ------------------------------------------------------------ argument forms
def form(rng, a, kinds=None):
    a = np.asarray(a)
    k = str(rng.choice(kinds or ['array', 'readonly', 'fortran', 'view', 'list', 'tuple']))
    if k == 'readonly':
        b = a.copy(); b.setflags(write=False)
    elif k == 'fortran':
        b = np.asfortranarray(a)
    elif k == 'view':
        big = np.full(tuple(2*s for s in a.shape), 7., dtype=a.dtype)
        b = big[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
    elif k == 'list':
        b = a.tolist()
    elif k == 'tuple':
        b = tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
    else:
        b = a.copy()
    return b, k

def frozen(p):
    """Make the property's matrices read-only."""
    for k in 'ABDE':
        try:
            getattr(p, k).setflags(write=False)
        except (AttributeError, ValueError):
            pass
    return p

def case_arrays(c):
    rng = c.rng
    s = gen.mesh(rng)
    if rng.random() < .4:       # a real Delaunay object, with the points it was made of
        pts = rng.uniform(0, 1, (int(rng.integers(4, 12)), 2))
        tri = Delaunay(pts)
        P, k = form(rng, pts)
        inputs = dict(points=P, simplices=tri.simplices, tri_points=tri.points, neighbors=tri.neighbors, equations=tri.equations)
    else:
        P, k = form(rng, s.pts if rng.random() < .7 else s.pts[:, :2])
        t, kt = form(rng, s.tris)
        tri = types.SimpleNamespace(simplices=t)
        inputs = dict(points=P, simplices=t)
        k += '/' + kt
    with Watch(c, inputs, what='read_delaunay ' + k):
        m = api().read_delaunay(P, tri)
    # and what follows must not reach back
    xs = list(m.nodes.values())
    for n in xs:
        n.prop = e = gen.synth(rng)
    with Watch(c, dict(inputs, prop=e), mesh=m, what='calc_k0 after read_delaunay'):
        api().calc_k0(m, True)
    c.sig('arrays', k, s.key())
    c.note(form=k, points=len(P))

def case_deck(c):
    rng = c.rng
    s = gen.mesh(rng)
    path = os.path.join(c.tmp, 'sub', 'deck %d.bdf' % c.index)
    os.makedirs(os.path.dirname(path))
    with open(path, 'w') as f:
        f.write(gen.deck(s, fmt='large' if rng.random() < .3 else None, comments=rng.random() < .5, rng=rng if rng.random() < .5 else None))
    if rng.random() < .5:
        os.chmod(path, 0o444)
    with Watch(c, dict(path=path), what='read_mesh'):
        m = api().read_mesh(path)
    with Watch(c, dict(path=path), mesh=m, what='read_mesh again'):
        api().read_mesh(path)
    c.sig('deck', s.key())
    c.note(mesh=s.describe())

def case_analysis(c):
    rng, a = c.rng, api()
    p = Problem(c)
    for it in p.nodes + p.trias:        # both modes
        if it.prop is None:
            it.prop = gen.prop(rng, p.spec.size())
    props = {id(it.prop): it.prop for it in p.nodes + p.trias}
    fr = bool(rng.random() < .5)
    if fr:
        for q in props.values():
            frozen(q)
    inp = dict(props=list(props.values()))
    with Watch(c, inp, mesh=p.mesh, what='calc_k0'):
        K = a.calc_k0(p.mesh, p.mode)
    seq = []
    for _ in range(int(rng.integers(2, 5))):
        mode = bool(rng.integers(2))
        if rng.random() < .55:
            m = str(rng.choice(gen.METHODS))
            k, kf = form(rng, K, ['array', 'fortran', 'view'])
            with Watch(c, dict(inp, K=K), mesh=p.mesh, what='add_k0s ' + m):
                r = a.add_k0s(k, p.mesh, mode, method=m, alpha=gen.alpha_of(rng), maxl_from_area=bool(rng.integers(2)))
            c.ok(np.all(np.isfinite(r)) and np.array_equal(r, k), 'the addition is made in place', method=m, form=kf)
            if kf == 'view':
                c.ok(np.all(k.base[1::2] == 7.) and np.all(k.base[:, 1::2] == 7.), 'memory next to the given matrix is left alone')
            seq.append((m, kf))
        else:
            d, w = rng.normal(size=5*p.n), ''
            if rng.random() < .5:       # states a solver may also hand over
                w = str(rng.choice(['zero', 'ones', 'one entry', 'tiny', 'huge', 'in plane', 'bending', 'nan', 'inf', 'denormal']))
                if w == 'one entry':
                    i = int(rng.integers(d.size)); d[:i] = 0; d[i+1:] = 0
                elif w in ('nan', 'inf'):
                    d[int(rng.integers(d.size))] = float(w)
                elif w in ('in plane', 'bending'):
                    d.reshape(-1, 5)[:, slice(2, None) if w == 'in plane' else slice(0, 2)] = 0
                else:
                    d = d*dict(zero=0, ones=0, tiny=1e-150, huge=1e150, denormal=1e-320)[w] + (w == 'ones')
                c.stats['pre-buckling state ' + w] += 1
            d, df = form(rng, d, ['array', 'readonly', 'view'])
            with Watch(c, dict(inp, d=d, K=K), mesh=p.mesh, what='calc_kG', output=w not in ('nan', 'inf', 'huge', 'tiny', 'denormal')):      # NumPy may warn of these
                a.calc_kG(d, p.mesh, mode)
            seq.append(('kG', df))
    describe(c, p, seq=seq, frozen=fr)

def case_large(c):
    """Sizes of real models: still nothing printed, nothing touched."""
    rng, a = c.rng, api()
    nx = int(rng.integers(18, 33)); ny = int(rng.integers(18, 33))
    s = gen.Spec(*gen.grid(rng, nx, ny, *rng.uniform(.5, 3, 2)), base='grid')
    if rng.random() < .5:
        path = os.path.join(c.tmp, 'large.bdf')
        with open(path, 'w') as f:
            f.write(gen.deck(s))
        with Watch(c, dict(path=path), what='read_mesh'):
            m = a.read_mesh(path)
    else:
        P, t = s.pts.tolist(), s.tris
        with Watch(c, dict(points=P, simplices=t), what='read_delaunay'):
            m = a.read_delaunay(P, gen.as_tri(t))
    q = gen.prop(rng, s.size())
    gen.assign_uniform(s, list(m.nodes.values()), list(m.elements.values()), q)
    mode = bool(rng.integers(2))
    with Watch(c, dict(prop=q), mesh=m, what='calc_k0'):
        K = a.calc_k0(m, mode)
    with Watch(c, dict(prop=q), mesh=m, what='add_k0s'):
        a.add_k0s(K, m, mode, method=str(rng.choice(gen.METHODS)))
    d = rng.normal(size=5*s.n)
    with Watch(c, dict(prop=q, d=d), mesh=m, what='calc_kG'):
        a.calc_kG(d, m, mode)
    c.stats['largest mesh'] = max(c.stats['largest mesh'], s.n)
    c.sig(s.key())
    c.note(nodes=s.n, trias=len(s.tris))

def case_interpolation(c):
    rng, a = c.rng, api()
    two = rng.random() < .5
    shape = tuple(int(x) for x in rng.integers(2, 5, 2 if two else 3))
    F = rng.normal(size=shape)
    m = int(rng.integers(1, 6))
    if rng.random() < .3:
        nodes = [np.sort(rng.uniform(0, 1, n)) + np.arange(n) for n in shape]
        q = [rng.uniform(0, 3, m) for _ in shape]
    else:               # any place, order and scale
        nodes = [lagr.nodes(rng, n)[1] for n in shape]
        q = [lagr.queries(rng, v, m)[1] for v in nodes]
        if rng.random() < .2:
            F = F*10.**rng.uniform(-12, 12) if rng.random() < .5 else rng.integers(-9, 10, shape)
        if rng.random() < .3:      # a control value that is not known
            F = F.astype(float); F.flat[int(rng.integers(F.size))] = np.nan
    args, forms = [], []
    for v in q + nodes + [F]:
        v, k = form(rng, v, ['array', 'readonly', 'view', 'fortran', 'list', 'tuple'])
        args.append(v); forms.append(k)
    with Watch(c, {'arg%d' % i: v for i, v in enumerate(args)}, what='interp%d' % len(shape)):
        (a.interp2 if two else a.interp3)(*args)
    c.sig('interp', shape, m, forms)
    c.note(dims=shape, queries=m, forms=forms)

def case_failing(c):
    """A call that fails leaves the inputs and the process alone too."""
    rng, a = c.rng, api()
    p = Problem(c)
    a_ = [n for n in p.nodes if n.trias] if p.mode else p.trias
    kind = str(rng.choice(['missing', 'missing', 'missing', 'method', 'short d', 'small k0', 'no file', 'quad', 'bad prop', 'points', 'interp']))
    inp = dict(props=[it.prop for it in a_][:4])
    N = 5*p.n
    K = a.calc_k0(p.mesh, p.mode)
    d = rng.normal(size=max(N-10, 2)); z = np.zeros((5, 5))
    P = rng.uniform(size=(4, 5))
    path = os.path.join(c.tmp, 'q.bdf')
    with open(path, 'w') as f:
        f.write(gen.deck(p.spec, extra=['CQUAD4,%d,1,%s' % (max(p.spec.eids)+1, ','.join(str(i) for i in (p.spec.nids*2)[:4]))]))
    it = a_[int(rng.integers(len(a_)))]
    if kind in ('missing', 'bad prop'):
        it.prop = None if kind == 'missing' else types.SimpleNamespace(A=None, B=None, D=None, E=None, h=0, scf_k13=None, scf_k23=None)
    sub = int(rng.integers(3))
    with Watch(c, dict(inp, K=K, d=d, P=P), mesh=p.mesh, what='failing ' + kind, output=False):
        if kind in ('missing', 'bad prop'):
            if sub == 0:
                a.calc_k0(p.mesh, p.mode)
            elif sub == 1:
                a.add_k0s(np.zeros((N, N)), p.mesh, p.mode, method=str(rng.choice(gen.METHODS)))
            else:
                a.calc_kG(np.ones(N), p.mesh, p.mode)
        elif kind == 'method':
            a.add_k0s(K, p.mesh, p.mode, method='nothing')
        elif kind == 'short d':
            a.calc_kG(d, p.mesh, p.mode)
        elif kind == 'small k0':
            a.add_k0s(z, p.mesh, p.mode)
        elif kind == 'no file':
            a.read_mesh(os.path.join(c.tmp, 'none.bdf'))
        elif kind == 'quad':
            a.read_mesh(path)
        elif kind == 'points':
            a.read_delaunay(P, types.SimpleNamespace(simplices=[(0, 1, 9)]))
        else:
            a.interp2(np.array([1.]), np.array([1.]), np.arange(3.), np.arange(2.), np.ones((1, 1)))
    c.sig('failing', kind, sub, p.spec.key())
    c.note(failing=kind)

def case_imports(c):
    """A fresh interpreter: importing changes nothing either."""
    code = '''
import sys, os, random, logging, warnings
import numpy as np, scipy, scipy.spatial, pyNastran.bdf.bdf
sys.path.insert(0, %r)
np.random.seed(3); random.seed(4)
def st():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2:], random.getstate(), np.geterr(), repr(np.get_printoptions()), [repr(f) for f in warnings.filters], os.getcwd(),
            dict(os.environ), sys.getrecursionlimit(), len(logging.root.handlers), logging.root.level, id(sys.stdout), sys.getswitchinterval(), np.getbufsize())
a = st()
import meshless, meshless.interpolate, meshless.utils, meshless.logger, meshless.espim.read_mesh, meshless.espim.plate2d_calc_k0
import meshless.espim.plate2d_add_k0s, meshless.espim.plate2d_calc_kG
b = st()
bad = [i for i in range(len(a)) if a[i] != b[i]]
sys.exit(10 + bad[0] if bad else 0)
''' % env.REPO
    r = subprocess.run([sys.executable, '-c', code], cwd=c.tmp, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    c.ok(r.returncode == 0, 'importing the library leaves the process-wide state alone', code=r.returncode, err=r.stderr[-300:])
    c.ok(r.stdout == '' and r.stderr == '', 'importing prints nothing', out=(r.stdout + r.stderr)[-300:])
    c.ok(not os.listdir(c.tmp), 'importing writes nothing', files=os.listdir(c.tmp))
    c.sig('imports')
    c.note(imports=True)
