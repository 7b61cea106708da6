"""C23: pow2mul preserves values."""
import ast, re
import sympy
from . import symb, env
from .common import *
RULE = ('random expression text (names with digits and traps, numbers, calls, nested parentheses, all kinds of exponents, optional spaces) and printed random SymPy expressions; every pow2mul call, '
        'also those made by the printing functions, is evaluated before and after at a random point with 60 digits; distinct by text')
KINDS = [('text', 6), ('sympy', 3), ('plain', 1), ('names', 2), ('printing', 1), ('no_powers', 1)]
NEED_EVENTS = ['pow2mul']
MIN_CASES = 80

def watch(c):
    P = symb.point(c.rng, symb.NAMES + symb.UNICODE + ['n', 'n2', 'q', 'w1', 'S2', 'a11', 'rr', 'gxz', 'tmp', 'x0', 'x3', 'x4', 'x5', 'x6', 'x7', 'x8', 'x9'])
    def post(ev):
        if ev.args is None:
            return
        s = ev.args['instr']
        if ev.exc is not None:
            return c.ok(False, 'expands without error', text=s, error=repr(ev.exc))
        judge(c, P, s, ev.ret)
    c.mon.subscribe('pow2mul', post=post)

def pows(t):
    """(name, exponent) of every power of a plain name to a literal positive integer"""
    out = []
    t = t.strip()
    for n in ast.walk(ast.parse(t, mode='eval')):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) \
                and isinstance(n.right.value, int) and n.right.value > 0 \
                and b'(' not in t.encode()[n.left.end_col_offset:n.right.col_offset]:     # offsets count bytes
            out.append((n.left.id, n.right.value))
    return out

def judge(c, P, s, r):
    try:
        want = symb.Ev(P).text(s)
        bad = not symb.mp.isfinite(want)
    except (SyntaxError, KeyError, ValueError, ZeroDivisionError, OverflowError):
        bad = True
    if bad:
        c.stats['text outside the property'] += 1
        return
    c.sig(s)
    if not isinstance(r, str):
        return c.ok(False, 'returns text', text=s)
    try:
        got = symb.Ev(P).text(r)
        left = pows(r)
    except Exception as e:
        return c.ok(False, 'result parses', text=s, result=r, error=repr(e))
    if not symb.same(got, want):      # decide with many digits before calling it a difference
        with symb.mp.workdps(5000):
            want, got = symb.Ev(P).text(s), symb.Ev(P).text(r)
    c.ok(symb.same(got, want), 'same value at every point', text=s, result=r, got=symb.mp.nstr(got, 15), expected=symb.mp.nstr(want, 15))
    c.ok(not left, 'powers of plain names are written as products', text=s, result=r, left=left)
    if '**' not in s and not re.search(r'\bpow\s*\(', s):
        c.ok(r == s, 'text without powers is unchanged', text=s, result=r)
    c.stats['with powers'] += '**' in s or 'pow(' in s
    c.stats['powers expanded'] += r != s

def p2m():
    return env.mod('meshless.dev.sympytools').pow2mul

def case_text(c):
    rng = c.rng
    watch(c)
    t = None
    for _ in range(12):
        sp = str(rng.choice([' ', ' ', '']))
        t = symb.text(rng, int(rng.integers(1, 6)), sp)[0]
        if len(t) > 1500:
            continue
        r = p2m()(t)
        p2m()(r)
    c.note(text=t)

def case_sympy(c):
    rng = c.rng
    watch(c)
    for _ in range(8):
        e = symb.expr(rng, symb.symbols(rng, 3), int(rng.integers(1, 4)))
        if e.has(sympy.zoo, sympy.nan):
            continue
        if rng.random() < .25:      # what else SymPy prints
            x = symb.symbols(rng, 1)[0]
            i, j = sympy.symbols('i j', integer=True)
            q = [sympy.MatrixSymbol('K', 3, 3)[0, int(rng.integers(3))], sympy.IndexedBase('A')[int(rng.integers(9)), 2], sympy.Function('g2')(x, e), sympy.Max(x, 2),
                 sympy.Piecewise((e, x < 1), (x**2, True)), sympy.IndexedBase('A')[x**2, 1]][int(rng.integers(6))]
            e = q**int(rng.integers(2, 13)) + sympy.Mul(e, q**2, evaluate=False)*(q + 1)**3 - sympy.Pow(q, sympy.Rational(5, 2))
            c.stats['items, cases and calls printed'] += 1
        t = str(e)
        p2m()(p2m()(t))
    c.note(text=t)

def case_plain(c):
    """Every exponent of one plain name, alone and embedded."""
    rng = c.rng
    watch(c)
    nm = str(rng.choice(symb.NAMES if rng.random() < .8 else symb.UNICODE))
    for e in list(range(1, 13)) + rng.integers(13, 130, 6).tolist():
        for t in ('%s**%d' % (nm, e), 'pow(%s, %d)' % (nm, e), 'y*%s**%d/(2*z) - 3*%s' % (nm, e, nm), '(%s - y)**%d' % (nm, e), '1/%s**%d' % (nm, e), '-%s**%d' % (nm, e)):
            p2m()(t)
    c.note(name=nm)

def case_names(c):
    """One name being part of another."""
    rng = c.rng
    watch(c)
    for _ in range(6):
        a = str(rng.choice(['x', 'x1', 'a', 'e2', 'pow', 'E']))
        n, k = int(rng.integers(2, 12)), int(rng.integers(2, 30))
        for t in ('%s1**%d + %s**%d' % (a, n, a, k), 'x%s**%d*%s**%d' % (a, n, a, k), '%s**%d*%s' % (a, n, a), '2*%s**%d1' % (a, n),
                  '%s**%d + %s**%d1' % (a, n, a, n), '(%s**%d)**%d' % (a, n, int(k % 4)+1), 'f(%s**%d)**%d' % (a, n, n)):
            t = t.replace('pow', 'pow2')
            P = dict((m, 1) for m in re.findall(r'[A-Za-z_]\w*', t))
            for m in P:
                if m not in symb.NAMES and m != 'f':
                    t = re.sub(r'\b%s\b' % m, 'xmid1' if len(m) > 2 else 'xx', t)
            p2m()(t)
    c.note(text=t)

def case_printing(c):
    """The printing functions expand the powers of what they print entry by entry, unless told not to."""
    rng = c.rng
    watch(c)
    st = env.mod('meshless.dev.sympytools')
    sy = symb.symbols(rng, 3)
    k, m = symb.matrix(rng, sy)
    if rng.random() < .7:
        m = sympy.Matrix(m)
        m[0, 0] = m[0, 0]*sy[0]**int(rng.integers(2, 9))/sy[1]**3 + (sy[0] + 2)**2*sy[1]**int(rng.integers(2, 5))
    for f in (st.mprint_as_sparse, st.mprint_as_dense, st.mprint_as_array):
        kw = {}
        if rng.random() < .4:
            kw['pow_by_mul'] = True
        for l in f(m, 'kq', print_file=False, **kw).split('\n'):
            t = re.match(r'\s*kq\w*\s*\[[^=]*\]\s*\+=\s*(.*)$', l)
            if not t or l.lstrip().startswith('#') or not t.group(1):
                continue
            try:
                left = pows(t.group(1))
            except SyntaxError:
                continue        # judged by C24 to C26
            c.ok(not left, 'powers of names in printed entries are products', function=f.__name__, line=l[:300], left=left)
            c.stats['printed entries'] += 1
            c.stats['printed entries with repeated names'] += bool(re.search(r'\b(\w+)\*\1\b', t.group(1)))
    c.sig('printing', m.tolist())
    c.note(matrix=str(m.tolist())[:300])

def case_no_powers(c):
    rng = c.rng
    watch(c)
    for _ in range(20):
        t = symb.text(rng, 4, str(rng.choice([' ', ''])))[0]
        t = t.replace('**', '*').replace('pow(', 'f(')
        p2m()(t)
        p2m()('  ' + t + ' ')
    c.note(text=t)
