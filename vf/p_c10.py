"""C10: cell-based (smoothed DSG) transverse shear."""
from .shearcase import *
METHOD = 'cell-based'
RULE = ('random meshes x orthotropic property fields (G13 != G23, k13 != k23, coupled E) x alpha x length option x both modes; every increment is compared '
        'with the independent DSG reference and its energies of rigid and linear fields with closed forms; distinct by mesh, mode and options')
KINDS = [('reference', 5), ('both_modes', 1), ('energies', 3), ('slivers', .7), ('big', .7), ('large', .15), ('repo_tests', .1)]
NEED_EVENTS = ['add_k0s']
MIN_CASES = 60

def case_reference(c):
    reference(c, METHOD)
def case_both_modes(c):
    other_mode(c, METHOD)
def case_energies(c):
    p, al, s, res = energies(c, METHOD)
    report(c, METHOD, res)
def case_slivers(c):
    reference(c, METHOD, spec=gen.slivers(c.rng))
def case_big(c):
    reference(c, METHOD, big=True)
def case_large(c):
    reference(c, METHOD, kind='large')
def case_repo_tests(c):
    from .repotests import run_espim
    watch_k0s(c, (METHOD,))
    run_espim(c)
