"""C04: k0 against the independent gradient-based reference."""
import numpy as np
from . import gen, ref
from .common import *
RULE = ('random meshes (structured, Delaunay, holes, fans, disjoint parts, unused points, mixed orientation, any ids, both readers, '
        'scales 1e-6..1e4, offsets, z levels) x property fields (real laminates, synthetic fully populated ABD; per node / per element; '
        'uniform and heterogeneous); distinct by mesh data and mode; all contain at least one edge domain')
KINDS = [('small', 5), ('slivers', .5), ('big', 2), ('large', .3), ('repo_tests', .1)]
NEED_EVENTS = ['calc_k0']
MIN_CASES = 60

def go(c, **kw):
    watch_k0(c)
    p = Problem(c, units=True, **kw)
    k = api().calc_k0(p.mesh, p.mode)
    c.ok(np.shape(k) == (5*p.n, 5*p.n), 'shape', got=np.shape(k))
    describe(c, p)

def case_small(c):
    go(c)
def case_slivers(c):
    go(c, spec=gen.slivers(c.rng))
def case_big(c):
    go(c, big=True)
def case_large(c):
    go(c, kind='large', scale=1., translate=0.)
def case_repo_tests(c):
    from .repotests import run_espim
    watch_k0(c)
    run_espim(c)
