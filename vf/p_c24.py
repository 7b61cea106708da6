"""C24: sparse assembly code."""
from .prn import *
RULE = ('random symbolic matrices (any shape, zero rows, numeric, shared sub-expressions, dense/sparse/immutable) x all option combinations; the printed code is interpreted statement by statement '
        'against recording arrays with 60-digit values and compared entry by entry with the matrix; distinct by matrix and options')
KINDS = [('any', 6), ('node', 2), ('symmetric', 2), ('subs', 2), ('wide', .4), ('watch_theory', .2)]
NEED_EVENTS = ['sparse']
MIN_CASES = 80

def judge(c, s, m, name, o):
    rng = c.rng
    P = point(c, m, o.get('subs'))
    header_ok(c, s, o.get('header'))
    dof = o.get('dofpernode')
    nb = [int(v) for v in rng.permutation(100)]
    ints = dict(c=-1)
    if dof:
        ints['dof'] = dof
        nn = max(m.rows, m.cols)//dof + 2
        for k in range(1, nn+1):
            ints['i%d' % k] = nb[k]
    else:
        ints['row'], ints['col'] = [int(v) for v in rng.integers(0, 500, 2)]
    r, cc, v = name + 'r', name + 'c', name + 'v'
    out = code_run(c, s, {r: int, cc: int, v: float}, ints, P)
    if out is None:
        return
    log, book, end = out
    subs_applied(c, s, [v], o.get('subs'))
    def where(i, j):
        if dof:
            return ints['i%d' % (i//dof+1)]*dof + i % dof, ints['i%d' % (j//dof+1)]*dof + j % dof
        return ints['row']+i, ints['col']+j
    want = {}
    for (i, j), e in full(m).items():
        if e == 0 or (o.get('is_symmetric') and i > j):
            continue
        want[where(i, j)] = symb.sval(e, P)
    n = len(want)
    sufix = name + ('_' + str(o['sufix']) if o.get('sufix') is not None else '')
    c.ok(symb.announced(book, sufix) == n, 'announced count', announced=symb.announced(book, sufix), entries=n, code=s)
    c.ok(end['c'] == n-1, 'one slot per entry', last=end['c'], entries=n)
    got = {}
    slots = {}
    for nm in (r, cc, v):
        ix = [a[0] for a in log[nm]]
        c.ok(ix == [(k,) for k in range(n)], 'exactly one triplet per printed entry', array=nm, slots=ix)
        slots[nm] = {a[0]: a for a in log[nm]}
    c.ok(all(a[1] == '=' for nm in (r, cc) for a in log[nm]) and all(a[1] == '+=' for a in log[v]), 'rows and columns are set, values accumulated', code=s)
    for k in slots[v]:
        if k in slots[r] and k in slots[cc]:
            p = (slots[r][k][2], slots[cc][k][2])
            c.ok(p not in got, 'each entry once', at=p)
            got[p] = slots[v][k][2]
    c.ok(set(got) == set(want), 'entries at the right row and column', missing=sorted(set(want)-set(got)), extra=sorted(set(got)-set(want)), options=show(o), matrix=str(m.tolist()))
    for p in want:
        if p in got:
            entry_ok(c, 'entry value', got[p], want[p], at=p, options=show(o), code=s)

def watch(c):
    def post(ev):
        if ev.args is None:
            return
        if ev.exc is not None:
            return c.ok(False, 'prints without error', error=repr(ev.exc), options=str(ev.args))
        a = ev.args
        judge(c, ev.ret, a['m'], a['mname'], {k: a[k] for k in ('sufix', 'dofpernode', 'is_symmetric', 'subs', 'header') if a[k] is not None})
    c.mon.subscribe('sparse', post=post)

def case_any(c, shape=None, density=.6, **kw):
    watch(c)
    syms, kind, m, o = setup(c, 'sparse', shape, density)
    o.update(kw)
    st().mprint_as_sparse(m, str(c.rng.choice(['k0', 'k', 'kG', 'm_1'])), **o)
    describe(c, m, o, kind)

def case_node(c):
    d = int(c.rng.integers(1, 6)); n = int(c.rng.integers(1, 4))
    case_any(c, (d*n, d*n), dofpernode=d)

def case_symmetric(c):
    """Symmetric matrices: the printed triangle restores the matrix."""
    rng = c.rng
    watch(c)
    n = int(rng.integers(1, 7))
    syms, kind, m, o = setup(c, 'sparse', (n, n))
    m = sympy.Matrix(m); m = sympy.Matrix(n, n, lambda i, j: m[min(i, j), max(i, j)])
    o['is_symmetric'] = True
    st().mprint_as_sparse(m, 'k0', **o)
    describe(c, m, o, kind)

def case_wide(c):
    """Many nodes, rows and columns, few entries."""
    d = int(c.rng.integers(1, 4)); n, k = c.rng.integers(9, 26, 2)
    kw = dict(dofpernode=d) if c.rng.random() < .7 else {}
    case_any(c, (int(d*n), int(d*k)), density=.02, **kw)

def case_subs(c):
    rng = c.rng
    watch(c)
    syms, kind, m, o = setup(c, 'sparse')
    o['subs'] = symb.fresh_subs(rng, m, syms)
    if not collected_ok(m, o):
        o.pop('collect_for')
    s = st().mprint_as_sparse(m, 'k', **o)
    describe(c, m, o, kind)

def case_watch_theory(c):
    """A stiffness-like matrix: B^T C B."""
    rng = c.rng
    watch(c)
    x = sympy.symbols('x1 y1 x2 y2 Ac A11 A12 A16')
    B = sympy.Matrix(3, 6, lambda i, j: (x[(i+j) % 4]-x[(j+1) % 4])/(2*x[4]) if (i+j) % 2 else 0)
    C = sympy.Matrix(3, 3, lambda i, j: x[5+abs(i-j)])
    m = x[4]*B.T*C*B
    o = dict(print_file=False, is_symmetric=True, dofpernode=2, subs={1/x[4]: sympy.Symbol('q')} if rng.random() < .5 else None)
    o = {k: v for k, v in o.items() if v is not None}
    st().mprint_as_sparse(m, 'k0', **o)
    describe(c, m, o, 'theory')
