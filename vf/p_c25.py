"""C25: dense assembly code."""
from .prn import *
RULE = ('random symbolic matrices (any shape, zero rows, numeric, shared sub-expressions, dense/sparse/immutable) x all option combinations; the printed code is interpreted statement by statement '
        'against a recording array with 60-digit values and compared entry by entry with the matrix; distinct by matrix and options')
KINDS = [('any', 6), ('node', 2), ('subs', 2), ('wide', .4), ('collect', 2)]
NEED_EVENTS = ['dense']
MIN_CASES = 80

def judge(c, s, m, name, o):
    rng = c.rng
    P = point(c, m, o.get('subs'))
    header_ok(c, s, o.get('header'))
    dof = o.get('dofpernode')
    nb = [int(v) for v in rng.permutation(100)]
    ints = {}
    if dof:
        ints['dof'] = dof
        for k in range(1, max(m.rows, m.cols)//dof + 3):
            ints['i%d' % k] = nb[k]
    out = code_run(c, s, {name: float}, ints, P, announce=True)
    if out is None:
        return
    log, book, end = out
    subs_applied(c, s, [name], o.get('subs'))
    def where(i, j):
        if dof:
            return ints['i%d' % (i//dof+1)]*dof + i % dof, ints['i%d' % (j//dof+1)]*dof + j % dof
        return i, j
    want = {where(i, j): symb.sval(e, P) for (i, j), e in full(m).items() if e != 0}
    c.ok(symb.announced(book, name) == len(want), 'announced count', announced=symb.announced(book, name), entries=len(want))
    ix = [a[0] for a in log[name]]
    c.ok(len(set(ix)) == len(ix), 'each entry once', at=ix)
    c.ok(set(ix) == set(want), 'exactly the non-zero entries', missing=sorted(set(want)-set(ix)), extra=sorted(set(ix)-set(want)), options=show(o), matrix=str(m.tolist()))
    c.ok(all(a[1] == '+=' for a in log[name]), 'adds into the target')
    for a in log[name]:
        if a[0] in want:
            entry_ok(c, 'entry value', a[2], want[a[0]], at=a[0], options=show(o), code=s)

def watch(c):
    def post(ev):
        if ev.args is None:
            return
        if ev.exc is not None:
            return c.ok(False, 'prints without error', error=repr(ev.exc), options=str(ev.args))
        a = ev.args
        judge(c, ev.ret, a['m'], a['mname'], {k: a[k] for k in ('dofpernode', 'subs', 'header') if a[k] is not None})
    c.mon.subscribe('dense', post=post)

def case_any(c, shape=None, density=.6, **kw):
    watch(c)
    syms, kind, m, o = setup(c, 'dense', shape, density)
    o.update(kw)
    st().mprint_as_dense(m, str(c.rng.choice(['k0', 'k', 'kG', 'm_1'])), **o)
    describe(c, m, o, kind)

def case_node(c):
    d = int(c.rng.integers(1, 6)); n = int(c.rng.integers(1, 4))
    case_any(c, (d*n, d*n), dofpernode=d)

def case_wide(c):
    """Many nodes, rows and columns, few entries."""
    d = int(c.rng.integers(1, 4)); n, k = c.rng.integers(9, 26, 2)
    kw = dict(dofpernode=d) if c.rng.random() < .7 else {}
    case_any(c, (int(d*n), int(d*k)), density=.02, **kw)

def case_subs(c):
    watch(c)
    syms, kind, m, o = setup(c, 'dense')
    o['subs'] = symb.fresh_subs(c.rng, m, syms)
    if not collected_ok(m, o):
        o.pop('collect_for')
    st().mprint_as_dense(m, 'k', **o)
    describe(c, m, o, kind)

def case_collect(c):
    watch(c)
    while True:
        syms, kind, m, o = setup(c, 'dense')
        o['collect_for'] = list(syms)[:int(c.rng.integers(1, len(syms)+1))]
        if collected_ok(m, o):
            break
    st().mprint_as_dense(m, 'k', **o)
    describe(c, m, o, kind)
