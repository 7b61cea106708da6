"""C31: progress messages do not influence results."""
import contextlib, io, os, sys
import numpy as np
from . import gen, lagr, ref, env
from .common import *
RULE = ('every function with a silent flag run silently and verbosely on twin meshes with standard output and error captured, also when it refuses its input; '
        'the three message functions with random texts and levels; distinct by mesh, function and text')
KINDS = [('analysis', 4), ('reading', 3), ('refused', 2), ('messages', 3)]
NEED_EVENTS = ['calc_k0', 'calc_kG', 'read_delaunay', 'read_mesh']
MIN_CASES = 40
SUB = {'cell-based': 'meshless.espim.plate2d_add_k0s_cell_based', 'cell-based-no-smoothing': 'meshless.espim.plate2d_add_k0s_cell_based_no_smoothing',
       'edge-based': 'meshless.espim.plate2d_add_k0s_edge_based'}

@contextlib.contextmanager
def capture():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = a, b = io.StringIO(), io.StringIO()
    box = []
    try:
        yield box
    finally:
        sys.stdout, sys.stderr = o, e
        box += [a.getvalue(), b.getvalue()]

def spoken(c, box, call):
    out, err = box
    n = len(out.splitlines())
    c.ok(1 <= n <= 20, 'verbose calls report their progress', call=call, lines=n, output=out[:200])
    c.ok(err == '', 'progress goes to standard output only', call=call, output=err[:200])

def quiet(c, box, call):
    c.ok(box == ['', ''], 'silent calls print nothing', call=call, output=(box[0]+box[1])[:200])

def both(c, f, call):
    """f(**keywords) silent, verbose and by default (order at random) -> results."""
    res = {}
    for silent in c.rng.permutation([0, 1, 2]):
        with capture() as box:
            res[int(silent)] = f(**[dict(silent=[False, False, 0, np.False_][int(c.rng.integers(4))]), dict(silent=[True, True, 1, np.True_][int(c.rng.integers(4))]), {}][silent])
        (quiet if silent else spoken)(c, box, call + (' by default' if silent == 2 else ''))
    return res[1], res[int(c.rng.choice([0, 0, 2]))]

def same(c, a, b, call):
    a, b = np.asarray(a), np.asarray(b)
    s = np.abs(a).max() if a.size else 0
    c.ok(a.shape == b.shape and np.all(np.abs(a-b) <= 1e-12*s), 'verbose and silent calls give the same result', call=call)

def case_analysis(c):
    rng = c.rng
    p = Problem(c)
    a = api()
    k, k2 = both(c, lambda **s: a.calc_k0(p.mesh, p.mode, **s), 'calc_k0')
    same(c, k, k2, 'calc_k0')
    d = rng.normal(size=5*p.n)
    g, g2 = both(c, lambda **s: a.calc_kG(d, p.mesh, p.mode, **s), 'calc_kG')
    same(c, g, g2, 'calc_kG')
    al, ao = gen.alpha_of(rng), bool(rng.integers(2))
    for me, mod in SUB.items():
        f = env.mod(mod).add_k0s
        same(c, *both(c, lambda **s: f(np.zeros_like(k), p.mesh, p.mode, al, ao, **s), me), me)
    describe(c, p)

def topo(m):
    return (list(m.nodes), [np.array(n.xyz).tolist() for n in m.nodes.values()], [(k, list(t.node_ids)) for k, t in m.elements.items()],
            [(k, [t.eid for t in e.trias]) for k, e in m.edges.items()])

def case_reading(c):
    rng = c.rng
    s = gen.mesh(rng)
    a = api()
    if rng.random() < .5:
        m, m2 = both(c, lambda **q: a.read_delaunay(s.pts, gen.as_tri(s.tris), **q), 'read_delaunay')
    else:
        m0, nodes, trias = gen.build(rng, s, c.tmp, 'deck')
        f = [os.path.join(r, x) for r, _, fs in os.walk(c.tmp) for x in fs]
        if not f:
            return
        m, m2 = both(c, lambda **q: a.read_mesh(f[0], **q), 'read_mesh')
    c.ok(topo(m) == topo(m2), 'verbose and silent reading give the same mesh')
    c.sig(s.key(), 'reading'); c.note(mesh=s.describe())

def case_refused(c):
    """A refusal is the same exception, verbose or not."""
    rng = c.rng
    p = Problem(c)
    u = p.spec.used()
    if p.mode:
        p.nodes[int(rng.choice(u))].prop = None
    else:
        p.trias[int(rng.integers(len(p.trias)))].prop = None
    for silent in (True, False):
        with capture() as box:
            try:
                api().calc_k0(p.mesh, p.mode, silent=silent); got = None
            except Exception as e:
                got = type(e)
        c.ok(got is ValueError, 'the refusal does not depend on the silent flag', silent=silent, got=str(got))
        if silent:
            quiet(c, box, 'refused calc_k0')
        else:
            c.ok(box[1] == '', 'progress goes to standard output only', call='refused calc_k0')
    describe(c, p, what='refused')

def case_messages(c):
    rng = c.rng
    lg = env.mod('meshless.logger')
    for _ in range(6):
        t = str(rng.choice(['', 'x', 'a b', 'tab\tinside', '%s %d {0}', 'line\nbreak', u'\u03b1 = 0.1', ' lead', 'trail  ', 'WARNING: twice'])) + str(rng.integers(100))
        lev = int(rng.integers(0, 6))
        for nm, pre in (('msg', ''), ('warn', 'WARNING: '), ('error', 'ERROR: ')):
            f = getattr(lg, nm)
            for kw, loud in ((dict(silent=True), False), (dict(silent=False), True), ({}, True), (dict(silent=[1, np.True_][int(rng.integers(2))]), False), (dict(silent=[0, np.False_][int(rng.integers(2))]), True)):
                for how in (0, 1):
                    with capture() as box:
                        r = f(t, lev, **kw) if how else f(t, **kw)
                    L = lev if how else 0
                    c.ok(r == pre + t, 'message functions return the message', function=nm, text=t, got=r)
                    want = '\t'*L + pre + t + '\n' if loud else ''
                    c.ok(box[0] == want and box[1] == '', 'message functions print the message once, indented by its level', function=nm, text=t, level=L, silent=not loud, got=box[0])
        c.sig(t, lev)
    c.note(text=t)
