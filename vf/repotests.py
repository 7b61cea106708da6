"""The repository's own tests and examples as monitored workloads."""
import contextlib, importlib, io, os, sys
from . import env

ESPIM = [('meshless.espim.tests.test_calc_linear_static', 'test_calc_linear_static'),
         ('meshless.espim.tests.test_calc_linear_buckling', 'test_calc_linear_buckling'),
         ('meshless.espim.tests.test_read_mesh', 'test_read_mesh'),
         ('meshless.espim.tests.test_read_delaunay', 'test_read_delaunay'),
         ('meshless.espim.tests.test_plate_from_zero', 'test_plate_from_zero')]

def run(c, tests):
    """Run test functions under the monitor; their own verdict is not ours to judge."""
    for modname, fn in tests:
        try:
            m = importlib.import_module(modname)
        except ImportError:
            continue
        # test modules may have been imported before the wrappers existed
        for k, v in list(vars(m).items()):
            for mm in list(sys.modules.values()):
                if getattr(mm, '__name__', '').startswith('meshless.') and mm is not m:
                    w = vars(mm).get(k)
                    if getattr(w, '_vf_orig', None) is not None and w._vf_orig is v:
                        setattr(m, k, w)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                getattr(m, fn)()
                c.stats['repo test passed'] += 1
            except AssertionError:
                c.stats['repo test assertion'] += 1
        c.sig('repo-test', modname, fn)
    c.note(tests=[t[1] for t in tests])

def run_espim(c):
    run(c, ESPIM)
