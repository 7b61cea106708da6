"""Expression workloads, high-precision evaluation and an interpreter for generated code."""
import ast, hashlib, re
import mpmath as mp
import numpy as np
import sympy
from . import env as _env

mp.mp.dps = 60
NAMES = ['x', 'y', 'z', 'x1', 'y1', 'x2', 'xmid1', 'A11', 'B_12', 'alpha', 'h', 'e2', 'E', 'a', 'le', 'nx1', 'pow2', 'x10', 'powx', 'row_', 'x_1', 'xx', 'ab', 'I1', 'dw', 'Ac']

UNICODE = ['\u03b1', '\u03c6x', '\u0394x', '\u03be', '\u03b22', '\u03b7_1', 'd\u03a9', '\xe9p']

def hashed(*a):
    return int(hashlib.sha1(repr(a).encode()).hexdigest()[:12], 16)

def point(rng, names=NAMES + UNICODE):
    return {n: mp.mpf(int(rng.integers(500001, 2000001)))/1000003 for n in names}

# sin and cos are only used as 'some odd/even function': their arguments are squashed so that
# huge arguments do not amplify rounding
squash = lambda a: a/(1 + abs(a))
KNOWN = dict(sin=lambda a: mp.sin(squash(a)), cos=lambda a: mp.cos(squash(a)), exp=mp.exp, sqrt=mp.sqrt, log=mp.log, Abs=abs)

def fun(name, args):
    if name == 'pow' and len(args) == 2:
        return mp.power(*args)
    if name in KNOWN and len(args) == 1:
        return KNOWN[name](args[0])
    return mp.sin(mp.mpf(hashed(name, len(args)) % 10007)/10007 + sum((mp.mpf(hashed(name, i) % 997 + 1)/997)*squash(a) for i, a in enumerate(args)))

class Ev(object):
    """Evaluate Python expression text with mpf arithmetic (so 1/3 is exact to 60 digits)."""
    def __init__(self, env):
        self.env = env
    def text(self, s):
        return self.ev(ast.parse(s.strip(), mode='eval').body)
    def ev(self, n):
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left), self.ev(n.right)
            if isinstance(n.op, ast.Add): return a + b
            if isinstance(n.op, ast.Sub): return a - b
            if isinstance(n.op, ast.Mult): return a*b
            if isinstance(n.op, ast.Div): return a/b
            if isinstance(n.op, ast.Pow): return mp.power(a, b)
        elif isinstance(n, ast.UnaryOp):
            a = self.ev(n.operand)
            if isinstance(n.op, ast.USub): return -a
            if isinstance(n.op, ast.UAdd): return a
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            return mp.mpf(n.value) if isinstance(n.value, int) else mp.mpf(repr(n.value))
        elif isinstance(n, ast.Name):
            if n.id == 'pi' and 'pi' not in self.env:
                return +mp.pi
            return self.env[n.id]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not n.keywords:
            return fun(n.func.id, [self.ev(a) for a in n.args])
        elif isinstance(n, ast.Call) and not n.keywords:
            return fun('()', [self.owner(n.func)] + [self.ev(a) for a in n.args])
        elif isinstance(n, ast.Subscript):
            i = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            return fun('[]%d' % len(i), [self.owner(n.value)] + [self.ev(a) for a in i])
        elif isinstance(n, ast.Attribute):
            return fun('.' + n.attr, [self.owner(n.value)])
        elif isinstance(n, ast.Tuple) and n.elts:
            return fun('(,)', [self.ev(a) for a in n.elts])
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            return fun(type(n.ops[0]).__name__, [self.ev(n.left), self.ev(n.comparators[0])])
        raise ValueError('unexpected syntax in generated code: ' + ast.dump(n)[:200])

    def owner(self, n):
        """What is indexed, called or has an attribute; a name that stands for no number gets one of its own."""
        if isinstance(n, ast.Name) and n.id not in self.env:
            return mp.mpf(hashed('name', n.id) % 9973 + 1)/9973
        return self.ev(n)

def sval(e, env):
    """Value of a SymPy expression, without going through its printer."""
    e = sympy.sympify(e)
    if e.is_Symbol:
        return env[e.name]
    if e.is_Integer:
        return mp.mpf(int(e))
    if e.is_Rational:
        return mp.mpf(int(e.p))/int(e.q)
    if e.is_Float:
        return mp.mpf(repr(float(e)))
    if e is sympy.pi:
        return +mp.pi
    if e is sympy.E:
        return mp.e
    if e.is_Add:
        return mp.fsum([sval(a, env) for a in e.args])
    if e.is_Mul:
        r = mp.mpf(1)
        for a in e.args:
            r *= sval(a, env)
        return r
    if e.is_Pow:
        return mp.power(sval(e.base, env), sval(e.exp, env))
    if e.is_Function:
        return fun(type(e).__name__, [sval(a, env) for a in e.args])
    raise ValueError('sval: %r' % e)

def same(a, b):
    return abs(a-b) <= mp.mpf(10)**-30*(1 + abs(a) + abs(b))

# -------------------------------------------------------------- expression text
def text(rng, depth, sp):
    """Random expression text; returns (text, kind) with kind in atom/paren/call/pow/prod/sum."""
    r = rng.random()
    if depth <= 0 or r < .18:
        return atom(rng)
    if r < .40:
        k = int(rng.integers(2, 4))
        out = ''
        for i in range(k):
            t, kd = text(rng, depth-1, sp)
            if kd == 'sum' or (kd == 'neg'):
                t = '(' + t + ')'
            out += ('' if not i else str(rng.choice(['*', '*', '/']))) + t
        return out, 'prod'
    if r < .58:
        k = int(rng.integers(2, 4))
        out = ''
        for i in range(k):
            t, kd = text(rng, depth-1, sp)
            if kd == 'neg':
                t = '(' + t + ')'
            s = str(rng.choice(['+', '-']))
            out += t if not i else (sp + s + sp + t)
        if rng.random() < .15:
            return '-' + out, 'sum'
        return out, 'sum'
    if r < .63:
        return '(' + text(rng, depth-1, sp)[0] + ')', 'paren'
    if r < .72:
        if rng.random() < .15:      # items, attributes, values of indexed functions
            o = str(rng.choice(['A', 'K', 'v', 'x', 'x1', 'd.k', 'pow2', 'tri.n1']))
            i = (',' + sp).join(text(rng, depth-2, sp)[0] for _ in range(int(rng.integers(1, 4))))
            t = str(rng.choice(['%s[%s]', '%s[%s]', 'f[0].%s(%s)', '%s[1](%s)', '%s.y(%s)', '%s(%s)[0]'])) % (o, i)
            return t, 'call'
        f = str(rng.choice(['sin', 'cos', 'f', 'sqrt', 'Abs', 'xpow', 'g2', 'spow']))
        return f + '(' + (',' + sp).join(text(rng, depth-2, sp)[0] for _ in range(2 if f in ('f', 'xpow') else 1)) + ')', 'call'
    if r < .80:
        e = exponent(rng) if rng.random() < .8 else str(rng.choice(['2.0', '10.0', '3.', '12.', '1.50', '0.5', '20.', '1e1', '4.00']))
        return 'pow(' + text(rng, depth-1, sp)[0] + ',' + sp + e + ')', 'call'
    b, kd = text(rng, depth-1, sp) if rng.random() < .5 else atom(rng)
    if kd in ('sum', 'prod', 'neg', 'pow') or (kd in ('num', 'call') and rng.random() < .3):
        b = '(' + b + ')'
    op = '**' if rng.random() < .9 or not sp else sp + '**' + sp
    e = exponent(rng)
    if rng.random() < .08:
        e = e + '**' + str(rng.integers(1, 4)) if re.match(r'[0-9]$', e) else e
    return b + op + e, 'pow'

def atom(rng):
    r = rng.random()
    if r < .75:
        return str(rng.choice(NAMES if rng.random() < .95 else UNICODE)), 'name'
    if r < .9:
        return str(int(rng.integers(1, 30))), 'num'
    return str(rng.choice(['0.5', '1.25', '2.0', '1.5e-3', '1e2', '3.', '0.333333333333333'])), 'num'

def exponent(rng):
    r = rng.random()
    if r < .62:
        return str(int(rng.choice([1, 2, 2, 2, 3, 3, 4, 5, 7, 9, 10, 11, 12, 20, 25, 31])))
    if r < .70:
        return '-' + str(int(rng.integers(1, 13)))
    if r < .78:
        return str(rng.choice(['(-2)', '(3)', '(12)', '(2.0)', '(10.)', '(-3/2)', '(1/2)', '(-1/2)', '(x1)', '(n + 1)', '(2*n)', '(-n)']))
    if r < .86:
        return str(rng.choice(['n', 'x1', 'alpha', 'n2']))
    if r < .94:
        return str(rng.choice(['0.5', '2.0', '1.5', '2.5', '0.25', '1e0', '2e0', '10.0', '12.', '2.', '3.00', '1e1', '1.5e1', '12e0', '.5', '20.50', '1e-1', '+3', '+12']))
    return '0'

def expr(rng, syms, depth=3, powers=True):
    """Random SymPy expression."""
    r = rng.random()
    if depth <= 0 or r < .2:
        return syms[int(rng.integers(len(syms)))] if rng.random() < .8 else sympy.Rational(int(rng.integers(-9, 10)), int(rng.integers(1, 7)))
    if r < .5:
        return sympy.Add(*[expr(rng, syms, depth-1, powers) for _ in range(int(rng.integers(2, 4)))])
    if r < .8:
        return sympy.Mul(*[expr(rng, syms, depth-1, powers) for _ in range(int(rng.integers(2, 4)))])
    b = expr(rng, syms, depth-1, powers)
    if r < .95:
        if b == 0:
            b = syms[0]
        return b**int(rng.choice([2, 2, 2, 3, 3, 4, -1, -2, 5, 10, 12])) if powers else b
    if r < .98 or not powers:
        return sympy.Function(str(rng.choice(['sin', 'cos'])))(b) if rng.random() < .5 else sympy.sin(b)
    return sympy.sqrt(syms[int(rng.integers(len(syms)))])

def symbols(rng, k):
    nm = rng.choice(NAMES, k, replace=False)
    if rng.random() < .1:       # Greek letters are common in this field
        nm[int(rng.integers(k))] = str(rng.choice(UNICODE))
    return [sympy.Symbol(str(n), positive=bool(rng.random() < .3)) for n in nm]

def matrix(rng, syms, shape=None, density=.6):
    if shape is None:
        shape = tuple(int(v) for v in rng.integers(1, 6, 2))
        if rng.random() < .1:       # the size of an element matrix
            shape = tuple(int(v) for v in rng.integers(1, 21, 2))
            density = min(density, 12/(shape[0]*shape[1]))
    kind = str(rng.choice(['mixed', 'poly', 'numeric', 'shared']))
    base = [expr(rng, syms, 2) for _ in range(3)]
    def entry():
        if rng.random() > density:
            return sympy.Integer(0)
        if kind == 'numeric':
            return sympy.Rational(int(rng.integers(-20, 21)), int(rng.integers(1, 9)))
        if kind == 'shared':
            return sympy.Add(*[base[int(rng.integers(3))]*expr(rng, syms, 1) for _ in range(2)])
        if kind == 'poly':
            s = expr(rng, syms, 2)
            return s
        return expr(rng, syms, int(rng.integers(1, 4)))
    M = [[entry() for _ in range(shape[1])] for _ in range(shape[0])]
    P = point(rng)
    def bad(e):
        if e.has(sympy.zoo, sympy.nan, sympy.oo):
            return True
        try:        # divisions by hidden zeros
            return not mp.isfinite(sval(e, P))
        except (ZeroDivisionError, ValueError, OverflowError):
            return True
    M = [[sympy.Integer(1) if bad(sympy.sympify(e)) else sympy.sympify(e) for e in r] for r in M]
    if rng.random() < .25 and shape[0] > 1 and shape[1] > 1:
        i, j = rng.integers(shape[0]), rng.integers(shape[1])
        M[i] = [sympy.Integer(0)]*shape[1]
    cls = [sympy.Matrix, sympy.ImmutableMatrix, sympy.Matrix, sympy.SparseMatrix][int(rng.integers(4))]
    return kind, cls(M)

def fresh_subs(rng, m, syms):
    """Substitutions of sub-expressions and symbols by fresh symbols."""
    out = {}
    pool = [s for e in m for s in sympy.preorder_traversal(e) if not s.is_number and not s.is_Symbol]
    vals = [str(v) for v in rng.permutation(['q', 'w1', 'S2', 'a11', 'rr', 'gxz', 'tmp'])]
    for v in vals[:int(rng.integers(1, 5))]:
        if pool and rng.random() < .6:
            k = pool[int(rng.integers(len(pool)))]
        else:
            k = syms[int(rng.integers(len(syms)))]
        if k not in out:
            out[k] = sympy.Symbol(v)
    return out

# ------------------------------------------------------------- generated code
class Target(object):
    """Array that records every access: (index, operator, value)."""
    def __init__(self, name):
        self.name, self.log = name, []

class BadCode(Exception):
    pass

def lines_of(s):
    """Join collected output ('X +=' followed by indented terms) into one statement."""
    out, acc = [], None
    for l in s.split('\n'):
        if acc is not None:
            if l.lstrip().startswith('#') or not l.strip():
                continue
            if l.startswith('    '):
                acc[1].append(l.strip())
                continue
            out.append(acc); acc = None
        if re.match(r'\S.*\+=\s*$', l):
            acc = (l.rstrip(), [])
        else:
            out.append((l, None))
    if acc is not None:
        out.append(acc)
    return out

def run(s, targets, ints, vals, announce=False):
    """Interpret printed code.  targets: names of arrays; ints: integer variables; vals: symbol
    values.  Returns a dict name -> list of (index tuple, op, value), plus bookkeeping."""
    ints, vals = dict(ints), dict(vals)
    log = {t: [] for t in targets}
    book = dict(declared=[], assigned=[], comments=[], statements=0)
    def iev(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return n.value
        if isinstance(n, ast.Name):
            if n.id not in ints:
                raise BadCode('unknown index variable %s' % n.id)
            return ints[n.id]
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult, ast.Sub)):
            a, b = iev(n.left), iev(n.right)
            return a+b if isinstance(n.op, ast.Add) else a*b if isinstance(n.op, ast.Mult) else a-b
        raise BadCode('unexpected index ' + ast.dump(n))
    def vev(n):
        try:
            return Ev(vals).ev(n)
        except KeyError as e:
            raise BadCode('name %s used before assignment' % e)
        except (ValueError, ZeroDivisionError, OverflowError) as e:
            raise BadCode('%s: %s' % (type(e).__name__, e))
    for l, terms in lines_of(s):
        if terms is not None:
            l = l + ' ' + (' + '.join('(%s)' % t for t in terms) if terms else '0')
        t = l.strip()
        if not t or t == 'subs':
            continue
        if t.startswith('#'):
            book['comments'].append(t)
            m = re.match(r'# (\w+) = (.+)$', t)
            if m and announce:
                vals[m.group(1)] = vev(ast.parse(m.group(2), mode='eval').body)
                book['assigned'].append(m.group(1))
            continue
        if t.startswith('cdef double'):
            book['declared'] += [x.strip() for x in t[len('cdef double'):].split(',')]
            continue
        try:
            st = ast.parse(t).body
        except SyntaxError:
            raise BadCode('not executable: %r' % t)
        for n in st:
            book['statements'] += 1
            if isinstance(n, ast.AugAssign):
                tg, op = n.target, {ast.Add: '+=', ast.Sub: '-='}.get(type(n.op))
            elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                tg, op = n.targets[0], '='
            else:
                raise BadCode('unexpected statement %r' % t)
            if isinstance(tg, ast.Name):
                if tg.id in ints:
                    ints[tg.id] = ints[tg.id] + iev(n.value) if op == '+=' else iev(n.value)
                else:
                    if op != '=':
                        raise BadCode('unexpected statement %r' % t)
                    vals[tg.id] = vev(n.value)
                    book['assigned'].append(tg.id)
                continue
            if not (isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name) and tg.value.id in log):
                raise BadCode('unexpected target %r' % t)
            ix = tg.slice
            ix = tuple(iev(e) for e in ix.elts) if isinstance(ix, ast.Tuple) else (iev(ix),)
            isint = targets[tg.value.id] == int
            log[tg.value.id].append((ix, op, iev(n.value) if isint else vev(n.value)))
    return log, book, ints

def entry_names(s, targets):
    """Names on the right-hand side of the statements that fill one of the targets."""
    out = set()
    for l, terms in lines_of(s):
        m = re.match(r'\s*(%s)\[.*?\]\s*[-+]?=(.*)$' % '|'.join(map(re.escape, targets)), l)
        if m:
            out |= set(re.findall(r'[^\W\d]\w*', ' '.join([m.group(2)] + (terms or []))))
    return out

def announced(book, name):
    """count given in a comment '# <name>_num=<n>'"""
    r = [re.match(r'# %s_num=(\d+)$' % re.escape(name), x) for x in book['comments']]
    r = [int(m.group(1)) for m in r if m]
    return r[0] if len(r) == 1 else None
