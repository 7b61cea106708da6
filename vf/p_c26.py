"""C26: flat-array code."""
from .prn import *
RULE = ('random symbolic matrices (any shape, zero rows, numeric, shared sub-expressions with many temporaries, dense/sparse/immutable) x order x operator x elimination x options; the printed code is '
        'interpreted statement by statement against a recording array with 60-digit values; distinct by matrix and options')
KINDS = [('any', 6), ('cse', 4), ('many', 1), ('order', 2)]
NEED_EVENTS = ['array']
MIN_CASES = 80

def judge(c, s, m, name, o):
    P = point(c, m)
    header_ok(c, s, o.get('header'))
    pos = int(c.rng.integers(0, 1000))
    out = code_run(c, s, {name: float}, dict(pos=pos), P)
    if out is None:
        return
    log, book, end = out
    F = o.get('order', 'C') == 'F'
    want = {}
    for (i, j), e in full(m).items():
        if e != 0:
            want[(pos + (i + j*m.rows if F else i*m.cols + j),)] = symb.sval(e, P)
    sufix = name + ('_' + str(o['sufix']) if o.get('sufix') is not None else '')
    n = symb.announced(book, sufix)
    ix = [a[0] for a in log[name]]
    c.ok(n == len(ix) == len(want), 'announced count', announced=n, printed=len(ix), entries=len(want))
    c.ok(set(ix) == set(want), 'entries at the right place', missing=sorted(set(want)-set(ix)), extra=sorted(set(ix)-set(want)), options=show(o), matrix=str(m.tolist()))
    op = o.get('op', '+=')
    c.ok(all(a[1] == op for a in log[name]), 'uses the requested operator', operator=op)
    for a in log[name]:
        if a[0] in want:
            entry_ok(c, 'entry value', a[2], want[a[0]], at=a[0], options=show(o), code=s)
    if o.get('use_cse'):
        d, t = book['declared'], book['assigned']
        c.stats['temporaries'] += len(t)
        c.ok(len(set(d)) == len(d) and sorted(d) == sorted(t), 'every temporary is declared once and assigned once', declared=d, assigned=t)
        c.ok(not set(t) & {x.name for e in full(m).values() for x in e.free_symbols}, 'temporaries do not hide symbols', assigned=t)
        # declared before assigned
        lines = s.split('\n')
        first = {}
        for k, l in enumerate(lines):
            mm = re.match(r'(\w+) = ', l)
            if mm and mm.group(1) in d:
                first.setdefault(mm.group(1), k)
        dec = max([k for k, l in enumerate(lines) if l.startswith('cdef double')] + [-1])
        c.ok(all(k > dec for k in first.values()), 'declarations come first')

def watch(c):
    def post(ev):
        if ev.args is None:
            return
        if ev.exc is not None:
            return c.ok(False, 'prints without error', error=repr(ev.exc), options=str(ev.args))
        a = ev.args
        judge(c, ev.ret, ev.pre['m'], a['mname'], {k: a[k] for k in ('sufix', 'use_cse', 'order', 'op', 'header') if a[k] is not None})
    def pre(args):
        return args['m'].copy()
    pre.key = 'm'
    c.mon.subscribe('array', post=post, pre=pre)

def case_any(c, shape=None, **kw):
    watch(c)
    syms, kind, m, o = setup(c, 'array', shape)
    if 'collect_for' in o and kw.get('op', '+=') != '+=':
        o.pop('collect_for')
    o.update(kw)
    if o.get('use_cse') and o.get('collect_for') is not None:
        # collected for symbols inside eliminated expressions
        red = sympy.cse(m)[1][0]
        if not collected_ok(red, o):
            o.pop('collect_for')
    st().mprint_as_array(m, str(c.rng.choice(['k0', 'k', 'kG', 'm_1'])), **o)
    describe(c, m, o, kind)

def case_cse(c):
    case_any(c, use_cse=True)

def case_order(c):
    sh = [int(v) for v in c.rng.permutation([1, 2, 3, 4, 5])[:2]]
    case_any(c, tuple(sh), order=str(c.rng.choice(['C', 'F'])), op=str(c.rng.choice(['+=', '=', '-='])))

def case_many(c):
    """More temporaries than fit one declaration line, symbols named like temporaries."""
    rng = c.rng
    watch(c)
    x = [sympy.Symbol('x%d' % i) for i in range(4)] if rng.random() < .4 else symb.symbols(rng, 4)
    subs = [(x[i % 4] + k)*(x[(i+1) % 4] - k)**2 for k in range(1, 6) for i in range(4)]
    n = int(rng.integers(3, 21))
    sel = [subs[int(i)] for i in rng.choice(len(subs), n, replace=False)]
    m = sympy.Matrix(3, 4, lambda i, j: sympy.Add(*[sel[(i*4+j+q) % n]*(q+1) + sel[(i+j*q) % n]**2 for q in range(2)]))
    o = dict(use_cse=True, print_file=False, order=str(rng.choice(['C', 'F'])))
    st().mprint_as_array(m, 'k', **o)
    describe(c, m, o, 'many')
