"""Workloads shared by C24-C27 (printing functions)."""
import re
import sympy
from . import symb, env
from .common import *

def st():
    return env.mod('meshless.dev.sympytools')

def options(rng, which, m, syms):
    """Random keyword arguments of one printing function."""
    o = {}
    if rng.random() < .5:
        o['pow_by_mul'] = flag(rng, rng.integers(2))
    if rng.random() < .3:
        o['header'] = str(rng.choice(['# a header', '# mat of the plate\n# second line', '# {k} of 100% \\n \\1', '# form\x0cfeed', '# tab\there, \u03b1\u2028and a line separator\x1c', '# trailing blanks  ']))
    if rng.random() < .25:
        o['collect_for'] = [syms[int(i)] for i in rng.choice(len(syms), int(rng.integers(1, len(syms)+1)), replace=False)]
        if rng.random() < .2:
            o['collect_for'] = o['collect_for'][:1]
    if which in ('sparse', 'dense'):
        if rng.random() < .45:
            o['subs'] = symb.fresh_subs(rng, m, syms)
        if rng.random() < .5:
            o['dofpernode'] = int(rng.integers(1, 7))
    if which == 'sparse' and rng.random() < .5:
        o['is_symmetric'] = flag(rng, rng.random() < .8)
    if which == 'array':
        if rng.random() < .5:
            o['use_cse'] = flag(rng, 1)
        if rng.random() < .6:
            o['order'] = str(rng.choice(['C', 'F']))
        if rng.random() < .4 and 'collect_for' not in o:
            o['op'] = str(rng.choice(['+=', '=', '-=']))
    if which != 'dense' and rng.random() < .3:
        o['sufix'] = ['boundary', 'tria1', 's_2', 0, 1, 12][int(rng.integers(6))]
    o['print_file'] = flag(rng, 0)
    return o

def show(o):
    return {k: str(v) for k, v in o.items() if k != 'print_file'}

def collected_ok(m, o):
    """collect_for needs expressions SymPy can collect; skip entries it refuses itself."""
    if o.get('collect_for') is None:
        return True
    try:
        for v in m:
            if v:
                v = v.subs(o['subs']) if o.get('subs') else v
                sympy.collect(v, o['collect_for'], evaluate=False)
        return True
    except Exception:
        return False

def setup(c, which, shape=None, density=.6):
    rng = c.rng
    while True:
        syms = symb.symbols(rng, int(rng.integers(2, 5)))
        kind, m = symb.matrix(rng, syms, shape, density)
        o = options(rng, which, m, syms)
        if collected_ok(m, o):
            break
    return syms, kind, m, o

def point(c, m, subs=None):
    return symb.point(c.rng, sorted({x.name for e in full(m).values() for x in e.free_symbols} |
        {x.name for k in (subs or ()) for x in sympy.sympify(k).free_symbols}))

def full(m):
    return {(i, j): sympy.sympify(m[i, j]) for i in range(m.rows) for j in range(m.cols)}

def entry_ok(c, what, got, want, **kw):
    if not symb.same(got, want):
        got, want = symb.mp.nstr(got, 20), symb.mp.nstr(want, 20)
        return c.ok(False, what, got=got, expected=want, **kw)
    return c.ok(True, what)

def subs_applied(c, s, targets, subs):
    """Names that are substituted everywhere do not occur in the printed entries any more."""
    if not subs:
        return
    kept = {x.name for v in subs.values() for x in sympy.sympify(v).free_symbols}
    gone = {k.name for k in subs if k.is_Symbol} - kept
    if gone:
        left = gone & symb.entry_names(s, targets)
        c.ok(not left, 'announced substitutions are applied in every entry', still_there=sorted(left), code=s)

def header_ok(c, s, header):
    """A given header is printed once, whole and before the code."""
    if not header:
        return
    ls, h = s.split('\n'), str(header).split('\n')
    at = [k for k in range(len(ls)) if ls[k:k+len(h)] == h]
    code = [k for k, l in enumerate(ls) if l.strip() and not l.lstrip().startswith('#') and '=' in l and '[' in l]
    c.ok(len(at) == 1 and (not code or at[0] < code[0]), 'the header is printed once, before the code', header=header, code=s)

def code_run(c, s, *a, **kw):
    try:
        return symb.run(s, *a, **kw)
    except symb.BadCode as e:
        c.ok(False, 'printed code executes', error=str(e), code=s)
        return None

def describe(c, m, o, kind):
    c.note(matrix=str(m.tolist()), options=show(o), entries=kind)
    c.sig(str(m.tolist()), sorted(show(o).items()))
    for k, v in o.items():
        if k in ('order', 'op', 'use_cse', 'is_symmetric', 'pow_by_mul', 'dofpernode'):
            c.stats['%s=%s' % (k, v)] += 1
        elif k != 'print_file':
            c.stats[k] += 1
