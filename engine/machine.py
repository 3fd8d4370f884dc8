"""Abstract evaluation of small numeric functions over a domain of exact terms:
control that depends on constants is followed, tables and arguments are terms,
and undecided comparisons split the arguments into cases.  Cases that contain
no point of a given set of sample points are left out."""
import math
from fractions import Fraction
import algebra as A
from prog import strip_tpl


DEBUG = False


class Unsupported(Exception):
    pass


class Unset(Unsupported):
    """A variable without value is used."""


class Thrown(Exception):
    pass


class T:
    __slots__ = ('op', 'a', 'h')
    table = {}

    def __new__(cls, op, *a):
        k = (op,) + tuple(id(x) if isinstance(x, T) else x for x in a)
        t = cls.table.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.a, t.h = op, a, hash(k)
            cls.table[k] = t
        return t

    def __hash__(self):
        return self.h

    def __repr__(self):
        return show(self)


def show(t, n=6):
    if not isinstance(t, T):
        return str(t)
    if n == 0:
        return '..'
    if t.op in ('+', '-', '*', '/', '<', '=='):
        return '(' + f' {t.op} '.join(show(x, n - 1) for x in t.a) + ')'
    if t.op == 'atom':
        return str(t.a[0])
    return f'{t.op}(' + ', '.join(show(x, n - 1) for x in t.a) + ')'


NUM = (int, Fraction)


def isnum(x):
    return isinstance(x, NUM) and not isinstance(x, bool)


def norm(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return T('const', repr(x))
        x = Fraction(repr(x))
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def atom(*n):
    return T('atom', *n)


def add(a, b):
    a, b = norm(a), norm(b)
    if isnum(a) and isnum(b):
        return norm(a + b)
    if isnum(a):
        a, b = b, a
    if isnum(b):
        if b == 0:
            return a
        if a.op == '+' and isnum(a.a[1]):
            return add(a.a[0], a.a[1] + b)
    return T('+', a, b)


def neg(a):
    return mul(-1, a)


def sub(a, b):
    a, b = norm(a), norm(b)
    if a is b:
        return 0
    if isnum(b):
        return add(a, -b)
    return T('-', a, b)


def mul(a, b):
    a, b = norm(a), norm(b)
    if isnum(a) and isnum(b):
        return norm(a * b)
    if isnum(a):
        a, b = b, a
    if isnum(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return T('*', a, b)


def div(a, b, integer=False):
    a, b = norm(a), norm(b)
    if isnum(b) and b != 0:
        if isnum(a):
            if integer:
                return int(a / b) if a * b >= 0 else -int(-a / b)
            return norm(Fraction(a) / Fraction(b))
        if b == 1:
            return a
    if isnum(a) and a == 0:
        return 0
    if integer:
        return T('fn', 'trunc', T('/', a, b))
    return T('/', a, b)


def fn(n, *a):
    return T('fn', n, *[norm(x) for x in a])


def slope(t, x, memo):
    """Derivative of t by the atom x; tables and axes are constant."""
    if isnum(t) or t.op in ('fn', 'const'):
        return 0
    if t.op == 'atom':
        return int(t is x)
    r = memo.get(id(t))
    if r is None:
        a, b = t.a
        da, db = slope(a, x, memo), slope(b, x, memo)
        if t.op == '+':
            r = add(da, db)
        elif t.op == '-':
            r = sub(da, db)
        elif t.op == '*':
            r = add(mul(da, b), mul(a, db))
        elif t.op == '/':
            r = div(da, b)
            if not (isnum(db) and db == 0):
                r = sub(r, div(mul(t, db), b))
        else:
            raise Unsupported('derivative of ' + t.op)
        memo[id(t)] = r
    return r


# --------------------------------------------------------------- exact forms
def rat(t, leaf, memo):
    """Exact normal form of a term."""
    if isnum(t):
        return A.num(t)
    r = memo.get(id(t))
    if r is None:
        if t.op == '+':
            r = rat(t.a[0], leaf, memo) + rat(t.a[1], leaf, memo)
        elif t.op == '-':
            r = rat(t.a[0], leaf, memo) - rat(t.a[1], leaf, memo)
        elif t.op == '*':
            r = rat(t.a[0], leaf, memo) * rat(t.a[1], leaf, memo)
        elif t.op == '/':
            r = rat(t.a[0], leaf, memo) / rat(t.a[1], leaf, memo)
        elif t.op == 'atom':
            r = A.var(('sym',) + t.a)
        elif t.op == 'fn':
            r = leaf(t, lambda x: rat(x, leaf, memo)) if leaf else None
            if r is None:
                r = A.apply(t.a[0], [rat(x, leaf, memo) if isinstance(x, T) or isnum(x) else A.var(('sym', x)) for x in t.a[1:]])
        else:
            raise A.Unknown(t.op)
        memo[id(t)] = r
    return r


# ------------------------------------------------------------ sample points
class Point:
    """A choice of arguments and tables: numbers for atoms and functions."""

    def __init__(self, atoms, functions):
        self.atoms, self.functions, self.memo = atoms, functions, {}

    def __call__(self, t):
        if isinstance(t, bool):
            return t
        if isnum(t):
            return float(t)
        r = self.memo.get(id(t))
        if r is None:
            r = self.memo[id(t)] = self.value(t)
        return r

    def value(self, t):
        o, a = t.op, t.a
        if o == '+':
            return self(a[0]) + self(a[1])
        if o == '-':
            return self(a[0]) - self(a[1])
        if o == '*':
            return self(a[0]) * self(a[1])
        if o == '/':
            x, y = self(a[0]), self(a[1])
            if y == 0:
                return math.nan if x == 0 or x != x else math.copysign(math.inf, x)
            return x / y
        if o == '<':
            return self(a[0]) < self(a[1])
        if o == '==':
            return self(a[0]) == self(a[1])
        if o == 'atom':
            x = self.atoms
            return x(*a) if callable(x) else x[a[0] if len(a) == 1 else a]
        if o == 'const':
            return float(a[0])
        if o == 'fn':
            xs = [self(x) if isinstance(x, T) or isnum(x) else x for x in a[1:]]
            g = self.functions.get(a[0])
            if g is None:
                g = A.FUN[a[0]]
            if a[0] in ('floor', 'ceil', 'trunc') and math.isinf(xs[0]):
                return xs[0]
            try:
                return g(*xs)
            except (ValueError, ZeroDivisionError, OverflowError):
                return math.nan
        raise Unsupported(o)


# ------------------------------------------------------------------- memory
class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


class Arr:
    """Array, matrix or map with one cell for each (tuple of) indices."""

    def __init__(self, default=None, size=None):
        self.cells, self.default, self.size = {}, default, size
        self.items = None

    def cell(self, k):
        if k not in self.cells:
            self.cells[k] = Cell(self.default(k) if callable(self.default) else self.default)
        return self.cells[k]

    def copy(self):
        r = Arr(self.default, self.size)
        for k, c in self.cells.items():
            r.cells[k] = Cell(dup(c.v))
        if self.items is not None:
            r.items = [(x, Cell(dup(c.v))) for x, c in self.items]
        return r


class Ptr:
    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off


class Obj:
    def __init__(self, cls, fields=None):
        self.cls, self.f = cls, {k: Cell(v) for k, v in (fields or {}).items()}

    def cell(self, n):
        if n not in self.f:
            self.f[n] = Cell()
        return self.f[n]

    def copy(self):
        r = Obj(self.cls)
        for k, c in self.f.items():
            r.f[k] = Cell(dup(c.v))
        return r


def dup(v):
    return v.copy() if isinstance(v, (Arr, Obj)) and not getattr(v, 'shared', False) else v


def key(x):
    x = norm(x)
    if not isinstance(x, int):
        raise Unsupported(f'index {show(x)}')
    return x


class Lambda:
    def __init__(self, fn, frame):
        self.fn, self.frame = fn, frame


class Split:
    """The cases of one evaluation: outcomes of the undecided comparisons."""

    def __init__(self, points):
        self.points = points
        self.script, self.pos = [], 0

    def start(self):
        self.known, self.alive, self.pos = {}, list(self.points), 0

    def choose(self, options):
        """options: list of (key, surviving points)"""
        if self.pos == len(self.script):
            self.script.append([0, len(options)])
        k = self.script[self.pos][0]
        self.pos += 1
        return options[k]

    def more(self):
        while self.script and self.script[-1][0] + 1 >= self.script[-1][1]:
            self.script.pop()
        if not self.script:
            return False
        self.script[-1][0] += 1
        return True

    def truth(self, t):
        if isinstance(t, bool):
            return t
        if isnum(t):
            return t != 0
        if t.op == '!':
            return not self.truth(t.a[0])
        if t in self.known:
            return self.known[t]
        yes = [p for p in self.alive if p(t)]
        no = [p for p in self.alive if not p(t)]
        opts = [o for o in ((True, yes), (False, no)) if o[1]]
        if not opts:
            raise Unsupported('case without points')
        v, self.alive = opts[0] if len(opts) == 1 else self.choose(opts)
        self.known[t] = v
        return v

    def integer(self, t):
        """One of the values that the integer term t has."""
        if isnum(t):
            return int(t)
        if ('int', t) in self.known:
            return self.known[('int', t)]
        vs = {}
        for p in self.alive:
            vs.setdefault(int(round(p(t))), []).append(p)
        opts = sorted(vs.items())
        v, self.alive = opts[0] if len(opts) == 1 else self.choose(opts)
        self.known[('int', t)] = v
        return v


class Frame:
    def __init__(self, f, this):
        self.f, self.this, self.env, self.memo, self.ret = f, this, {}, {}, None


COPY = {'std::copy_n', 'std::fill_n', 'std::copy'}
MATH = {'abs': 'abs', 'fabs': 'abs', 'floor': 'floor', 'ceil': 'ceil', 'sqrt': 'sqrt', 'log': 'log', 'exp': 'exp', 'pow': 'pow', 'sin': 'sin', 'cos': 'cos',
        'tan': 'tan', 'atan': 'atan', 'atan2': 'atan2', 'asin': 'asin', 'acos': 'acos', 'log10': 'log10', 'fmod': 'fmod', 'max': 'max', 'min': 'min', 'trunc': 'trunc'}
INTS = ('int', 'long', 'size_t', 'short', 'char')


def isint(t):
    t = t.replace('const ', '').rstrip('& ')
    return t.split()[-1:] and t.split()[-1] in INTS


class Machine:
    LIMIT = 200000

    def __init__(self, P, split, hook=None, objects=None, member=None):
        self.P, self.s, self.hook, self.member = P, split, hook, member
        self.steps = 0
        self.depth = 0
        self.frame = self.where = None

    # ------------------------------------------------------------ functions
    def call(self, f, this, args):
        """Value of f; args are values, or cells for references."""
        fr = Frame(f, this)
        for p, a in zip(f.params, args):
            ref = p['t'].rstrip().endswith('&')
            if ref:
                fr.env[p['d']] = a if isinstance(a, Cell) else Cell(a)
            else:
                v = val(a)
                if isinstance(v, Arr) and p['t'].rstrip().endswith('*'):
                    v = Ptr(v)
                fr.env[p['d']] = Cell(dup(v))
        return self.run(fr)

    def run(self, fr):
        f = fr.f
        if f.entry is None:
            raise Unsupported(f'no body of {f.q}')
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        b = f.entry
        while b != f.exit:
            blk = f.blocks[b]
            for e in blk['el']:
                self.steps += 1
                if self.steps > self.LIMIT:
                    raise Unsupported('too long')
                if isinstance(e, int) and e in self.bases(f):
                    continue
                if isinstance(e, int):
                    self.visit(fr, e)
                    if f.nodes[e]['k'] == 'ret':
                        self.depth -= 1
                        return fr.ret
                elif isinstance(e, dict) and e.get('initf'):
                    self.init(fr, e)
                elif isinstance(e, dict) and isinstance(e.get('n'), int) and e['n'] >= 0:
                    self.visit(fr, e['n'], fr.this if 'initb' in e or 'deleg' in e else None)
            su = blk['su']
            if blk.get('tk') == 'SwitchStmt':
                v = self.s.integer(val(self.get(fr, blk['tc'])))
                B = f.blocks
                live = [x for x in su if 'case' in B[x] and B[x].get('casev') == v] or [x for x in su if B[x].get('default')] or [x for x in su if 'case' not in B[x]]
                b = live[0]
            elif len(su) == 1:
                b = su[0]
            elif len(su) == 2:
                b = su[0] if self.truth(fr, blk.get('lc', blk['tc'])) else su[1]
            else:
                break
            if b is None or b < 0:
                raise Unsupported('dead edge')
        self.depth -= 1
        return fr.ret

    def bases(self, f):
        """Constructor calls for the object itself, which are done by the initializer."""
        r = getattr(f, '_bases', None)
        if r is None:
            r = f._bases = {e['n'] for b in f.blocks.values() for e in b['el'] if isinstance(e, dict) and ('initb' in e or 'deleg' in e)}
        return r

    def init(self, fr, e):
        i = e['n']
        if i is None or i < 0:
            return
        c = fr.this.cell(e['initf'])
        v = val(self.get(fr, i))
        c.v = dup(v)

    def truth(self, fr, i):
        nd = fr.f.nodes[i]
        if nd['k'] == 'bin' and nd['op'] in ('&&', '||'):
            l = self.truth(fr, nd['c'][0])
            if l == (nd['op'] == '||'):
                return l
            return self.truth(fr, nd['c'][1])
        if nd['k'] == 'un' and nd['op'] == '!':
            return not self.truth(fr, nd['c'][0])
        return self.tell(val(self.get(fr, i)))

    def tell(self, v):
        if v is None or isinstance(v, (Ptr, Obj, Arr, Cell)):
            return v is not None
        return self.s.truth(v)

    # ---------------------------------------------------------- expressions
    def get(self, fr, i):
        if i in fr.memo:
            return fr.memo[i]
        return self.visit(fr, i)

    def v(self, fr, i):
        return val(self.get(fr, i))

    def visit(self, fr, i, target=None):
        nd = fr.f.nodes[i]
        self.frame, self.where = fr, i
        r = self.eval(fr, i, nd, target)
        if nd.get('rd') and isinstance(r, Cell):
            r = r.v
            if r is None and False:
                raise Unsupported('no value')
        fr.memo[i] = r
        return r

    def eval(self, fr, i, nd, target):
        k, c = nd['k'], nd.get('c', [])
        if k == 'lit':
            v = nd.get('v')
            return v if isinstance(v, bool) else norm(v)
        if k == 'null':
            return None
        if k == 'zero':
            return 0
        if k == 'str':
            return ('str', nd['v'])
        if k == 'this':
            return fr.this
        if k == 'ref':
            if nd.get('vk') in ('local', 'param', 'slocal'):
                if nd['d'] not in fr.env:
                    fr.env[nd['d']] = Cell()
                return fr.env[nd['d']]
            if 'ev' in nd:
                return nd['ev']
            if nd.get('vk') == 'enum' and 'v' in nd:
                return norm(nd['v'])
            return ('glob', nd.get('q') or nd['n'], nd.get('u'))
        if k == 'memfn':
            return ('memfn',)
        if k == 'mem':
            b = self.v(fr, c[0])
            if isinstance(b, Ptr):
                b = self.at(b, 0).v
            if self.member:
                r = self.member(self, b, nd)
                if r is not None:
                    return r
            if isinstance(b, Obj):
                x = b.cell(nd['n'])
                if x.v is None and nd.get('t', '').endswith(']'):
                    x.v = Arr()
                return x
            raise Unsupported(f'member {nd["n"]}')
        if k == 'sub':
            return self.at(self.v(fr, c[0]), self.v(fr, c[1]))
        if k == 'cast':
            if nd.get('t') == 'void' or not c:
                return None
            return self.cast(nd, self.get(fr, c[0]))
        if k == 'init':
            if len(c) == 1 and '[' not in nd.get('t', '') and 'array' not in nd.get('t', ''):
                return self.get(fr, c[0])
            r = Arr(0, len(c))
            for j, x in enumerate(c):
                r.cell(j).v = self.v(fr, x)
            return r
        if k == 'un':
            return self.unary(fr, nd, c)
        if k == 'bin':
            return self.binary(fr, nd, c)
        if k == 'cond':
            return self.get(fr, c[1] if self.truth(fr, c[0]) else c[2])
        if k == 'decl':
            for w in nd['vars']:
                self.declare(fr, w)
            return None
        if k == 'ret':
            if c:
                r = self.get(fr, c[0])
                fr.ret = r if fr.f.r.get('rt', '').rstrip().endswith('&') else dup(val(r))
            return None
        if k == 'throw':
            raise Thrown()
        if k == 'ctor':
            return self.construct(fr, i, nd, c, target)
        if k == 'call':
            return self.invoke(fr, i, nd, c)
        if k == 'new':
            if nd.get('arr'):
                return Ptr(Arr(None, self.v(fr, nd['size']) if nd.get('size', -1) >= 0 else None))
            if nd.get('ini', -1) >= 0:
                return self.v(fr, nd['ini'])
            raise Unsupported('new')
        if k == 'lambda':
            raise Unsupported('lambda')
        raise Unsupported(k)

    def cast(self, nd, r):
        t = nd.get('t', '')
        v = val(r)
        if isint(t) and isinstance(v, (T, Fraction)) and not (isinstance(v, T) and self.integral(v)):
            if isinstance(v, Fraction):
                return int(v)
            return fn('trunc', v)
        return r

    def integral(self, t):
        if isnum(t):
            return isinstance(t, int)
        if t.op in ('+', '-', '*'):
            return self.integral(t.a[0]) and self.integral(t.a[1])
        if t.op == 'fn' and t.a[0] in ('max', 'min'):
            return all(self.integral(x) for x in t.a[1:])
        return t.op == 'fn' and (t.a[0] in ('floor', 'ceil', 'trunc') or t.a[0].startswith('int')) or t.op == 'atom' and str(t.a[0]).startswith('int')

    def at(self, b, k):
        if isinstance(b, Cell):
            b = b.v
        if isinstance(b, Ptr):
            k = add(k, b.off)
            b = b.arr
        if self.hook:
            r = self.hook(self, 'sub', b, (k,))
            if r is not None:
                return r
        if isinstance(b, Arr):
            k = self.s.integer(k) if isinstance(k, T) else key(k)
            if isinstance(b.size, int) and not 0 <= k < b.size:
                raise Unsupported(f'element {k} of {b.size}')
            return b.cell(k)
        raise Unsupported(f'element of {type(b).__name__}')

    def unary(self, fr, nd, c):
        o = nd['op']
        if o in ('++', '--'):
            l = self.get(fr, c[0])
            if not isinstance(l, Cell):
                raise Unsupported('++')
            old = l.v
            if isinstance(old, Ptr):
                l.v = Ptr(old.arr, add(old.off, 1 if o == '++' else -1))
            else:
                l.v = add(old, 1 if o == '++' else -1)
            return old if nd.get('post') else l
        if o == '*':
            b = self.v(fr, c[0])
            return self.at(b, 0) if isinstance(b, Ptr) else b
        if o == '&':
            x = self.get(fr, c[0])
            if isinstance(x, Cell):
                if isinstance(x.v, (Obj,)):
                    return x.v
                a = Arr()
                a.cells[0] = x
                return Ptr(a)
            return x
        v = self.v(fr, c[0])
        if o == '-':
            return neg(v)
        if o == '+':
            return v
        if o == '!':
            return not self.tell(v)
        raise Unsupported(o)

    def arith(self, o, a, b, t=''):
        if isinstance(a, Ptr) and o in ('+', '-') and not isinstance(b, Ptr):
            return Ptr(a.arr, add(a.off, b if o == '+' else neg(b)))
        if a is None or b is None or isinstance(a, (Ptr, Obj, Arr)) or isinstance(b, (Ptr, Obj, Arr)):
            if o in ('==', '!='):
                same = a is b or isinstance(a, Ptr) and isinstance(b, Ptr) and a.arr is b.arr and a.off == b.off
                return same == (o == '==')
            if not isinstance(a, (Ptr, Obj, Arr)) and not isinstance(b, (Ptr, Obj, Arr)):
                raise Unset('a value is used that has not been set')
            raise Unsupported(f'{o} of objects')
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported(f'{o} of {a} and {b}'[:80])
        a, b = norm(a), norm(b)
        if o == '+':
            return add(a, b)
        if o == '-':
            return sub(a, b)
        if o == '*':
            return mul(a, b)
        if o == '/':
            return div(a, b, bool(isint(t)))
        if o == '%' and isinstance(a, int) and isinstance(b, int) and b:
            return a % b
        if o in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(o, a, b)
        raise Unsupported(o)

    def compare(self, o, a, b):
        if isnum(a) and isnum(b):
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[o]
        if a is b:
            return o in ('<=', '>=', '==')
        if o == '<':
            return T('<', a, b)
        if o == '>':
            return T('<', b, a)
        if o == '<=':
            return T('!', T('<', b, a))
        if o == '>=':
            return T('!', T('<', a, b))
        t = T('==', a, b)
        return t if o == '==' else T('!', t)

    def binary(self, fr, nd, c):
        o = nd['op']
        if o == ',':
            self.get(fr, c[0])
            return self.get(fr, c[1])
        if o in ('&&', '||'):
            l = self.truth(fr, c[0])
            if l == (o == '||'):
                return l
            return self.truth(fr, c[1])
        if nd.get('asg'):
            l = self.get(fr, c[0])
            r = self.v(fr, c[1])
            if not isinstance(l, Cell):
                raise Unsupported('assignment')
            if o != '=':
                r = self.arith(o[:-1], l.v, r, nd.get('t', ''))
            l.v = self.fit(dup(r), fr.f.nodes[c[0]].get('t', ''))
            return l
        return self.arith(o, self.v(fr, c[0]), self.v(fr, c[1]), nd.get('t', ''))

    def fit(self, v, t):
        """Value v stored in an object of type t."""
        if isint(t) and isinstance(v, (Fraction, T)):
            return self.cast({'t': t}, v)
        return v

    def declare(self, fr, w):
        d, t, ini = w['d'], w.get('t', ''), w.get('init', -1)
        if ini is None or ini < 0:
            if t.rstrip().endswith(']'):
                fr.env[d] = Cell(Arr(None, w.get('ext') if isinstance(w.get('ext'), int) else None))
            else:
                fr.env[d] = Cell()
            return
        x = self.get(fr, ini)
        if t.rstrip().endswith('&') and isinstance(x, Cell):
            fr.env[d] = x
            return
        fr.env[d] = Cell(self.fit(dup(val(x)), t))

    # ---------------------------------------------------------------- calls
    def construct(self, fr, i, nd, c, target):
        cls = nd.get('cls', '')
        if self.hook:
            r = self.hook(self, 'ctor', target, (nd, fr, c))
            if r is not None:
                return r
        if nd.get('cm') and len(c) == 1:
            return dup(self.v(fr, c[0]))
        b = strip_tpl(cls)
        if b in ('std::shared_ptr', 'std::unique_ptr') or b.endswith('iterator'):
            return self.v(fr, c[0]) if c else None
        if b in ('std::vector', 'boost::numeric::ublas::vector', 'boost::numeric::ublas::unbounded_array', 'std::array', 'boost::numeric::ublas::c_vector'):
            a = [self.v(fr, x) for x in c]
            r = Arr(0 if b == 'std::vector' else None, 0)
            if a and isinstance(a[0], Arr):
                return a[0].copy()
            if a:
                r.size = self.s.integer(a[0])
                if len(a) > 1 and (isnum(a[1]) or isinstance(a[1], T)):
                    r.default = a[1]
            elif b == 'std::array':
                r.size = None
            return r
        if b.startswith('boost::numeric::ublas::') and ('matrix' in b):
            if 'zero' in b:
                return Arr(0)
            a = [self.v(fr, x) for x in c]
            if a and isinstance(a[0], Arr):
                return a[0].copy()
            r = Arr()
            r.size = tuple(self.s.integer(x) for x in a) if len(a) == 2 else None
            return r
        if b.startswith('std::') and b.endswith(('error', 'argument', 'exception')):
            return Obj(cls)
        if b == 'std::complex' and c and all(norm(self.v(fr, x)) == 0 for x in c[1:]):
            return self.v(fr, c[0])
        if b == 'std::complex' and not c:
            return 0
        if b in ('std::map',) or b.startswith('std::basic_string') or b == 'std::pair':
            r = Arr()
            r.items = []
            return r
        g = self.P.fns.get(nd.get('u'))
        if g is None:
            if b.startswith('usml::'):
                o = target if isinstance(target, Obj) else Obj(cls)
                if not c:
                    return o
            if not c:
                return target if target is not None else Obj(cls)
            raise Unsupported(f'constructor of {b}')
        o = target if isinstance(target, Obj) else Obj(cls)
        self.call(g, o, [self.get(fr, x) for x in c])
        return o

    def invoke(self, fr, i, nd, c):
        q = nd.get('q', '')
        n = q.split('::')[-1]
        op = nd.get('op')
        recv = None
        if nd.get('recv', -1) is not None and nd.get('recv', -1) >= 0:
            recv = self.get(fr, nd['recv'])
        if self.hook:
            r = self.hook(self, 'call', recv, (nd, fr, c))
            if r is not None:
                return r[0]
        rv = val(recv)
        if isinstance(rv, Ptr) and nd.get('arrow'):
            rv = self.at(rv, 0).v
        g = self.dispatch(rv, nd) if isinstance(rv, Obj) else self.P.fns.get(nd.get('u'))
        if g is not None and g.entry is not None and not (isinstance(rv, Arr)):
            return self.call(g, rv, [self.get(fr, x) for x in c])
        if op in ('->', '*') and not c and rv is not None:
            return rv if op == '->' or not isinstance(rv, Ptr) else self.at(rv, 0)
        if n == 'get' and not c and nd.get('cls', '').startswith('std::'):
            return rv
        if op == '=' and isinstance(recv, Cell):
            recv.v = dup(self.v(fr, c[0]))
            return recv
        if isinstance(rv, Arr):
            r = self.container(fr, rv, n, op, nd, c)
            if r is not None:
                return r[0]
        if q in ('std::copy_n',):
            p, k, o = (self.v(fr, x) for x in c)
            for j in range(self.s.integer(k)):
                self.at(o, j).v = dup(self.at(p, j).v)
            return o
        if q in ('std::fill_n', 'std::fill'):
            p, k, o = (self.v(fr, x) for x in c)
            for j in range(self.s.integer(k)):
                self.at(p, j).v = dup(o)
            return p
        if q.startswith('std::isnan') or n in ('isnan', 'isinf'):
            return False
        if n in ('max', 'min') and len(c) == 2:
            return self.extreme(n, self.v(fr, c[0]), self.v(fr, c[1]))
        if n == 'swap' and len(c) == 2:
            x, y = self.get(fr, c[0]), self.get(fr, c[1])
            if isinstance(x, Cell) and isinstance(y, Cell):
                x.v, y.v = y.v, x.v
                return None
        if n == 'prod' and len(c) == 2:
            a, b = (self.v(fr, x) for x in c)
            if isinstance(a, Arr) and isinstance(b, Arr):
                return self.product(a, b)
        if op in ('==', '!=', '<', '-') and isinstance(rv, Ptr) and len(c) == 1:
            return self.arith(op, rv, self.v(fr, c[0]))
        if op in ('==', '!=') and len(c) == 2:
            return self.arith(op, self.v(fr, c[0]), self.v(fr, c[1]))
        if op in ('++', '--') and isinstance(recv, Cell) and isinstance(rv, Ptr):
            recv.v = Ptr(rv.arr, add(rv.off, 1 if op == '++' else -1))
            return recv if not c else rv
        if n in MATH and (q == n or q.startswith('std::') or 'ublas' not in q):
            a = [self.v(fr, x) for x in c]
            if all(isnum(x) or isinstance(x, T) for x in a):
                return self.math(n, a)
        if q.startswith('std::') and (op == '<<' or n == 'endl'):
            return recv
        if op in ('+', '-', '*', '/') and len(c) == 2:
            return self.arith(op, self.v(fr, c[0]), self.v(fr, c[1]))
        raise Unsupported(f'call of {q}')

    def product(self, a, b):
        """Matrix product."""
        rows = sorted({k[0] for k in a.cells})
        if isinstance(a.size, tuple):
            rows = range(a.size[0])
        r = Arr(0)
        for i in rows:
            for j in sorted({k[1] for k in b.cells}):
                v = 0
                for k in sorted({k[0] for k in b.cells}):
                    v = add(v, mul(a.cell((i, k)).v, b.cell((k, j)).v))
                r.cell((i, j)).v = v
        return r

    def math(self, n, a):
        if n in ('abs', 'fabs') and isnum(a[0]):
            return abs(a[0])
        if n in ('floor', 'trunc', 'ceil'):
            if isnum(a[0]):
                return getattr(math, n)(a[0])
            if self.integral(a[0]):
                return a[0]
        if n == 'sqrt' and a[0] in (0, 1):
            return a[0]
        return fn(MATH[n], *a)

    def extreme(self, n, a, b):
        a, b = norm(a), norm(b)
        if isnum(a) and isnum(b):
            return max(a, b) if n == 'max' else min(a, b)
        if a is b:
            return a
        t = self.compare('<', a, b)
        return (b if self.s.truth(t) else a) if n == 'max' else (a if self.s.truth(t) else b)

    def container(self, fr, r, n, op, nd, c):
        if op in ('[]', '()') or n == 'at':
            ks = [self.v(fr, x) for x in c]
            if r.items is not None:
                return (self.entry(r, ks[0]),)
            if len(ks) == 1 and isinstance(ks[0], (int, Fraction, T)):
                return (self.at(r, ks[0]),)
            k = tuple(self.s.integer(x) for x in ks)
            if isinstance(r.size, tuple) and not all(0 <= x < y for x, y in zip(k, r.size)):
                raise Unsupported(f'element {k} of {r.size}')
            return (r.cell(k),)
        if n == 'size' and not c and isinstance(r.size, int):
            return (r.size,)
        if n in ('size1', 'size2') and isinstance(r.size, tuple):
            return (r.size[n == 'size2'],)
        if n == 'resize' and c:
            if len(c) > 1 and 'matrix' in nd.get('cls', ''):
                r.size = (self.s.integer(self.v(fr, c[0])), self.s.integer(self.v(fr, c[1])))
            else:
                r.size = self.s.integer(self.v(fr, c[0]))
            return (None,)
        if n == 'data' and not c and 'ublas' in nd.get('cls', ''):
            return (r,)
        if n in ('begin', 'data', 'cbegin') and not c:
            return (Ptr(r),)
        if n in ('end', 'cend') and not c and isinstance(r.size, int):
            return (Ptr(r, r.size),)
        if n == 'clear' and not c:
            r.cells = {}
            r.default = 0
            return (None,)
        return None

    def entry(self, r, k):
        for x, c in r.items:
            if x is k or isnum(x) and isnum(k) and x == k:
                return c
        c = Cell()
        r.items.append((k, c))
        return c

    def dispatch(self, o, nd):
        """The function that a call with receiver o runs."""
        u = nd.get('u')
        g = self.P.fns.get(u)
        if not nd.get('virt'):
            return g
        hs = {self.P.fns[x].cls: self.P.fns[x] for x in self.P.overriders.get(u, ()) if x in self.P.fns}
        if g is not None:
            hs.setdefault(g.cls, g)
        for cl in [o.cls] + list(self.P.all_bases(o.cls)):
            if cl in hs:
                return hs[cl]
        return g


def val(x):
    return x.v if isinstance(x, Cell) else x


def cases(P, points, body, hook=None, member=None, limit=4000):
    """body(machine) -> result, for every case: yields (result or exception,
    split)."""
    s = Split(points)
    n = 0
    while True:
        s.start()
        m = Machine(P, s, hook, member=member)
        try:
            r = body(m)
        except (Unsupported, Thrown, A.Unknown) as e:
            r = e
            if DEBUG:
                import traceback
                print(''.join(traceback.format_exc()[-1500:]), [(m.frame and m.frame.f.q, m.frame and m.where)])
        yield r, s
        n += 1
        if not s.more() or n >= limit:
            break
