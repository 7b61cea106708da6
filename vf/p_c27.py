"""C27: printing has no side effect beyond the requested file."""
import os, sys, io, contextlib, copy, random, warnings
from .prn import *
RULE = ('random matrices and option objects given to all three printing functions in random order, repeatedly and with file output on and off, next to older and unrelated files; digests of all '
        'arguments, the directory, the output stream and the returned texts are compared; distinct by matrix and options')
KINDS = [('arguments', 5), ('files', 4), ('sequence', 3)]
NEED_EVENTS = ['sparse', 'dense', 'array']
MIN_CASES = 80
FN = dict(sparse='mprint_as_sparse', dense='mprint_as_dense', array='mprint_as_array')

def digest(x):
    if isinstance(x, sympy.MatrixBase):
        return (type(x).__name__, x.shape, tuple(sympy.srepr(e) for e in x), tuple(id(e) for e in (x.todok().values() if hasattr(x, 'todok') and False else ())))
    if isinstance(x, dict):
        return ('dict', [(digest(k), digest(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [digest(v) for v in x])
    if isinstance(x, sympy.Basic):
        return sympy.srepr(x)
    return repr(x)

def tree(d):
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        s = os.stat(p)
        out[f] = (open(p, 'rb').read() if os.path.isfile(p) else sorted(os.listdir(p)), s.st_mtime_ns, s.st_mode)
    return out

def process():
    """What printing has no business with."""
    st = np.random.get_state()
    return dict(recursion=sys.getrecursionlimit(), cwd=os.getcwd(), environ=dict(os.environ), warnings=[repr(f) for f in warnings.filters], np_random=(st[1].tobytes(), st[2:]),
                random=random.getstate(), printoptions=repr(sorted(np.get_printoptions().items(), key=lambda x: x[0])), err=np.geterr(), displayhook=id(sys.displayhook), path=list(sys.path),
                stdout=id(sys.stdout), printer=[repr(sorted(p._global_settings.items())) for p in (sympy.printing.printer.Printer, sympy.StrPrinter)], digits=sys.get_int_max_str_digits(),
                printing=(sympy.Symbol.__str__, sympy.Symbol.__repr__, sympy.Basic.__str__, sympy.MatrixBase.__str__), umask=umask())

def umask():
    m = os.umask(0o22); os.umask(m)
    return m

def fname(which, a):
    n = a['mname'] + ('_' + str(a['sufix']) if a.get('sufix') is not None else '')
    return 'print_%s.txt' % n

def watch(c):
    """Every printing call: arguments untouched, nothing printed, only the requested file written."""
    for which in FN:
        def pre(args):
            return dict(args={k: digest(v) for k, v in args.items()}, tree=tree('.'), m=[id(e) for e in args['m']], process=process())
        pre.key = 'before'
        def post(ev, which=which):
            if ev.args is None:
                return
            b = ev.pre['before']
            now = {k: digest(v) for k, v in ev.args.items()}
            diff = [k for k in now if now[k] != b['args'][k]]
            c.ok(not diff, 'arguments are not modified', function=which, changed=diff, before=str([b['args'][k] for k in diff])[:300], after=str([now[k] for k in diff])[:300])
            p = process()
            c.ok(p == b['process'], 'the process is left as it was', function=which, changed=[k for k in p if p[k] != b['process'][k]])
            if ev.exc is not None:
                return c.ok(False, 'prints without error', error=repr(ev.exc))
            t0, t1 = b['tree'], tree('.')
            f = fname(which, ev.args)
            if ev.args['print_file']:
                c.stats['files written'] += 1
                c.ok(f in t1 and t1[f][0].decode() == ev.ret, 'the file contains exactly the returned text', file=f, there=f in t1)
                t1.pop(f, None); t0 = {k: v for k, v in t0.items() if k != f}
            c.ok(t0 == t1, 'no other file is touched', file_output=ev.args['print_file'], changed=[k for k in set(t0) | set(t1) if t0.get(k) != t1.get(k)])
        c.mon.subscribe(which, pre=pre, post=post)

def call(c, which, m, name, o):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        s = getattr(st(), FN[which])(m, name, **o)
    c.ok(out.getvalue() == '', 'prints nothing on the terminal', text=out.getvalue()[:100])
    return s

def pick(c, which):
    while True:
        syms, kind, m, o = setup(c, which)
        if o.get('use_cse') and o.get('collect_for') is not None and not collected_ok(sympy.cse(m)[1][0], o):
            continue
        return syms, kind, m, o

def case_arguments(c):
    rng = c.rng
    watch(c)
    which = str(rng.choice(list(FN)))
    syms, kind, m, o = pick(c, which)
    o['print_file'] = flag(rng, rng.random() < .3)
    s1 = call(c, which, m, 'k', o)
    c.ok(call(c, which, m, 'k', o) == s1, 'printing again gives the same text', function=which, options=show(o))
    # an equal, newly built matrix and option objects give the same text
    m2, o2 = type(m)(m.tolist()), {k: copy.copy(v) for k, v in o.items()}
    c.ok(call(c, which, m2, 'k', o2) == s1, 'the same objects rebuilt give the same text', function=which, options=show(o))
    describe(c, m, o, which)

def case_files(c):
    rng = c.rng
    watch(c)
    which = str(rng.choice(list(FN)))
    syms, kind, m, o = pick(c, which)
    o.pop('print_file')
    if rng.random() < .5:
        o['print_file'] = flag(rng, 1)
    name = str(rng.choice(['k0', 'kG', 'k', 'mat_2']))
    f = fname(which, dict(o, mname=name))
    if rng.random() < .6:       # an older and longer file
        with open(f, 'w') as h:
            h.write('old line\n'*int(rng.integers(1, 3000)))
    for x in ('print_%s.txt.bak' % name, 'print_other.txt', name + '.txt', 'notes'):
        if rng.random() < .4:
            open(x, 'w').write('keep')
    if rng.random() < .3:
        os.makedirs('sub/print_%s.txt' % name, exist_ok=True)
    s = call(c, which, m, name, o)
    c.ok(os.path.exists(f), 'the file print_<name>[_<suffix>].txt is written', file=f, present=os.listdir('.'))
    o['print_file'] = flag(rng, 0)
    m3 = sympy.Matrix([[syms[0]]])
    o.pop('subs', None); o.pop('collect_for', None)
    call(c, which, m3, name, o)
    c.ok(open(f).read() == s, 'file output off leaves the older file', file=f)
    o['print_file'] = flag(rng, 1)
    s3 = call(c, which, m3, name, o)
    c.ok(open(f).read() == s3, 'a new print replaces the older one', file=f)
    describe(c, m, o, which)

def case_sequence(c):
    """One matrix through all formats, interleaved, against texts printed from fresh copies."""
    rng = c.rng
    watch(c)
    opts = {}
    syms = symb.symbols(rng, 3)
    kind, m = symb.matrix(rng, syms)
    shared = dict(subs=symb.fresh_subs(rng, m, syms) or None, collect_for=[syms[0]] if rng.random() < .3 else None)
    for _ in range(8):
        which = str(rng.choice(list(FN)))
        o = options(rng, which, m, syms)
        if which != 'array' and rng.random() < .5 and shared['subs']:
            o['subs'] = shared['subs']
        if shared['collect_for'] is not None and rng.random() < .5:
            o['collect_for'] = shared['collect_for']
            o.pop('op', None)
        o['print_file'] = flag(rng, rng.random() < .2)
        red = sympy.cse(m)[1][0] if o.get('use_cse') else m
        if not collected_ok(red, o):
            o.pop('collect_for', None)
        fresh = call(c, which, type(m)(m.tolist()), 'k', {k: copy.copy(v) for k, v in o.items()})
        c.ok(call(c, which, m, 'k', o) == fresh, 'text depends only on the arguments', function=which, options=show(o))
    describe(c, m, o, 'sequence')
