"""C12: edge-based transverse shear."""
from .shearcase import *
from .islands import islands
METHOD = 'edge-based'
RULE = ('random meshes (single triangles and meshes with interior edges) x orthotropic property fields without xz-yz coupling x alpha x length option x both modes; '
        'every increment is compared with the independent edge-smoothed DSG reference (interior edges: or with that reference carrying exactly the known finding), '
        'energies of rigid and linear fields with closed forms on boundary-only meshes; distinct by mesh, mode and options')
KINDS = [('reference', 5), ('boundary', 3), ('both_modes', 1), ('energies', 2), ('boundary_energies', 2), ('slivers', .7), ('big', .7), ('large', .15), ('repo_tests', .1)]
NEED_EVENTS = ['add_k0s']
MIN_CASES = 60

def case_reference(c):
    reference(c, METHOD)
def case_boundary(c):
    reference(c, METHOD, spec=islands(c))
def case_both_modes(c):
    other_mode(c, METHOD)
def case_boundary_energies(c):
    p, al, s, res = energies(c, METHOD, spec=islands(c))
    report(c, METHOD, res)
def case_energies(c):
    p, al, s, res = energies(c, METHOD)
    # the known finding breaks these energies too: only if the increment is exactly that deviation
    if all(r[0] for r in res):
        return report(c, METHOD, res)
    if judge_k0s(c, p.mesh, p.mode, METHOD, al, False, np.zeros_like(s), s) and 'F-EDGE-B1' in c.known:
        c.stats['energies affected by the known finding'] += 1
        return
    report(c, METHOD, res)
def case_slivers(c):
    reference(c, METHOD, spec=gen.slivers(c.rng, 4.))
def case_big(c):
    reference(c, METHOD, big=True)
def case_large(c):
    reference(c, METHOD, kind='large')
def case_repo_tests(c):
    from .repotests import run_espim
    watch_k0s(c, (METHOD,))
    run_espim(c)
