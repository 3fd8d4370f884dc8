"""Exact normal forms of arithmetic terms: quotients of polynomials with
rational coefficients over opaque atoms, where sin^2 = 1 - cos^2 and
sqrt(x)^2 = x, the angles of sums are expanded, and two forms that differ are
told apart by a point at which their values differ."""
from fractions import Fraction
import cmath, math, random

PI = ('pi',)
LIMIT = 6000


class TooBig(Exception):
    pass


class Unknown(Exception):
    """Term that has no value form."""


class Poly(dict):
    """{((atom, power), ...): coefficient}"""


_order = {}


def rank(a):
    """Cheap total order of atoms."""
    k = _order.get(a)
    if k is None:
        k = _order[a] = len(_order)
    return k


def const(k):
    return Poly({(): Fraction(k)}) if k else Poly()


ONE = const(1)


def padd(a, b, k=1):
    r = Poly(a)
    for m, v in b.items():
        x = r.get(m, 0) + k * v
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > LIMIT * 20:
        raise TooBig
    r = Poly()
    for m, v in a.items():
        for n, w in b.items():
            if m and n:
                d = dict(m)
                for x, p in n:
                    d[x] = d.get(x, 0) + p
                for mono, k in reduce(d):
                    x = r.get(mono, 0) + v * w * k
                    if x:
                        r[mono] = x
                    else:
                        r.pop(mono, None)
            else:
                mono = m or n
                x = r.get(mono, 0) + v * w
                if x:
                    r[mono] = x
                else:
                    r.pop(mono, None)
    if len(r) > LIMIT:
        raise TooBig
    return r


def mono(d):
    return tuple(sorted(((x, p) for x, p in d.items() if p), key=lambda e: (rank(e[0]), e[1])))


def reduce(d):
    """Monomial with sin^2 and sqrt^2 replaced: [(monomial, factor)]."""
    for x, p in d.items():
        if p >= 2 and isinstance(x, tuple) and x[0] == 'fn' and x[1] in ('sin', 'sqrt'):
            e = dict(d)
            e[x] -= 2
            if not e[x]:
                del e[x]
            if x[1] == 'sin':
                f = dict(e)
                c = ('fn', 'cos', x[2])
                f[c] = f.get(c, 0) + 2
                return reduce(e) + [(m, -k) for m, k in reduce(f)]
            return list(pmul(Poly({mono(e): Fraction(1)}), Poly(dict(x[2][0]))).items())
    return [(mono(d), Fraction(1))]


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else ONE
        if len(self.d) == 1 and () in self.d and self.d[()] != 1:
            k = self.d[()]
            self.n, self.d = Poly({m: v / k for m, v in self.n.items()}), ONE
        elif self.d != ONE and self.n:
            # common monomial factors
            ms = list(self.n) + list(self.d)
            if len(ms) < 400:
                low = dict(ms[0])
                for m in ms[1:]:
                    dm = dict(m)
                    low = {x: min(p, dm[x]) for x, p in low.items() if x in dm}
                    if not low:
                        break
                if low:
                    cut = lambda P: Poly({mono({x: p - low.get(x, 0) for x, p in m}): v for m, v in P.items()})
                    self.n, self.d = cut(self.n), cut(self.d)
            if self.n == self.d:
                self.n, self.d = ONE, ONE
            elif len(self.d) == 1 and () in self.d:
                k = self.d[()]
                self.n, self.d = Poly({m: v / k for m, v in self.n.items()}), ONE

    def __add__(self, o):
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __sub__(self, o):
        return self + o * Rat(const(-1))

    def __mul__(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        if not o.n:
            raise Unknown('division by zero')
        return Rat(pmul(self.n, o.d), pmul(self.d, o.n))

    def __neg__(self):
        return Rat(padd(Poly(), self.n, -1), self.d)

    def same(self, o):
        return self.n == o.n and self.d == o.d or pmul(self.n, o.d) == pmul(o.n, self.d)

    def key(self):
        f = lambda p: tuple(sorted(p.items(), key=lambda e: tuple((rank(x), q) for x, q in e[0])))
        return f(self.n), f(self.d)

    def atoms(self, deep=False):
        r = set()
        for p in (self.n, self.d):
            for m in p:
                for x, _ in m:
                    if x not in r:
                        r.add(x)
                        if deep and x[0] == 'fn':
                            for k in x[2:]:
                                r |= of(k).atoms(True)
        return r

    def number(self):
        """Fraction when the form is a number, else None."""
        if self.d == ONE and (not self.n or set(self.n) == {()}):
            return self.n.get((), Fraction(0))
        return None

    def __repr__(self):
        return show(self)


def of(key):
    return Rat(Poly(dict(key[0])), Poly(dict(key[1])))


def num(k):
    if isinstance(k, float):
        for m, f in ((math.pi, 1), (math.pi / 2, Fraction(1, 2)), (math.pi / 4, Fraction(1, 4)), (2 * math.pi, 2)):
            if abs(k - m) < 1e-14:
                return Rat(Poly({((PI, 1),): Fraction(f)}))
        x = Fraction(k).limit_denominator(10**9)
        return Rat(const(x if abs(float(x) - k) <= 1e-15 * abs(k) else Fraction(k)))
    return Rat(const(Fraction(k)))


def var(a):
    rank(a)
    return Rat(Poly({((a, 1),): Fraction(1)}))


def fn(name, *args):
    return var(('fn', name) + tuple(x.key() for x in args))


def sqrt(x):
    k = x.number()
    if k is not None and k >= 0:
        r = Fraction(math.isqrt(k.numerator), math.isqrt(k.denominator))
        if r * r == k:
            return num(r)
    if x.d == ONE:
        return fn('sqrt', x)
    return fn('sqrt', Rat(pmul(x.n, x.d))) / Rat(x.d)


def angle(x):
    """[(multiple, base angle)] of an angle: half of each monomial is a base."""
    out = []
    for m, v in x.n.items():
        if m == ((PI, 1),) and (2 * v).denominator == 1:
            out.append((int(2 * v), 'right'))
        elif (2 * v).denominator == 1 and abs(2 * v) <= 6 and m:
            out.append((int(2 * v), Rat(Poly({m: Fraction(1, 2)}))))
        else:
            s = 1 if v > 0 else -1
            out.append((s, Rat(Poly({m: abs(v)}))))
    return out


def trig(x):
    """(sin, cos) of x."""
    if x.d != ONE or len(x.n) > 4:
        k = x
        neg = x.n and min(x.n.items(), key=lambda e: tuple((rank(a), q) for a, q in e[0]))[1] < 0
        if neg:
            k = -x
        s, c = fn('sin', k), fn('cos', k)
        return (-s if neg else s), c
    if len(x.n) == 1:
        (m, v), = x.n.items()
        if abs(v) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'fn' and m[0][0][1] in ('asin', 'acos', 'atan'):
            y = of(m[0][0][2])
            one = num(1)
            s, c = {'asin': lambda: (y, sqrt(one - y * y)), 'acos': lambda: (sqrt(one - y * y), y),
                    'atan': lambda: (y / sqrt(one + y * y), one / sqrt(one + y * y))}[m[0][0][1]]()
            return (s if v > 0 else -s), c
    s, c = num(0), num(1)
    for k, b in angle(x):
        if b == 'right':
            sb, cb = num((0, 1, 0, -1)[k % 4]), num((1, 0, -1, 0)[k % 4])
            s, c = s * cb + c * sb, c * cb - s * sb
            continue
        sb, cb = fn('sin', b), fn('cos', b)
        if k < 0:
            sb, k = -sb, -k
        for _ in range(k):
            s, c = s * cb + c * sb, c * cb - s * sb
    return s, c


def sin(x):
    return trig(x)[0]


def cos(x):
    return trig(x)[1]


def derive(x, a):
    """Derivative of x with respect to atom a."""
    dn, dd = dpoly(x.n, a), dpoly(x.d, a)
    return (dn * Rat(x.d) - Rat(x.n) * dd) / (Rat(x.d) * Rat(x.d))


def dpoly(p, a):
    r = num(0)
    for m, v in p.items():
        for j, (x, q) in enumerate(m):
            dx = datom(x, a)
            if dx is None:
                continue
            rest = dict(m)
            rest[x] -= 1
            r = r + Rat(Poly({mono(rest): v * q})) * dx
    return r


def datom(x, a):
    if x == a:
        return num(1)
    if x[0] != 'fn':
        return None
    args = [of(k) for k in x[2:]]
    if not any(a in y.atoms(True) for y in args):
        return None
    n, y = x[1], args[0]
    if n.startswith('table '):
        d = num(0)
        for j, y in enumerate(args):
            d = d + fn(f"slope {j} of {n}", *args) * derive(y, a)
        return d
    dy = derive(y, a)
    if n == 'sin':
        return fn('cos', y) * dy
    if n == 'cos':
        return -fn('sin', y) * dy
    if n == 'exp':
        return fn('exp', y) * dy
    if n == 'cosh':
        return fn('sinh', y) * dy
    if n == 'sinh':
        return fn('cosh', y) * dy
    if n == 'log':
        return dy / y
    if n == 'sqrt':
        return dy / (num(2) * var(x))
    if n == 'asin':
        return dy / sqrt(num(1) - y * y)
    if n == 'pow' and len(args) == 2 and args[1].number() is not None:
        return args[1] * fn('pow', y, args[1] - num(1)) * dy
    raise Unknown(f'derivative of {n}')


def subst(x, env):
    """Form x with atoms replaced by forms."""
    memo = {}

    def at(a):
        if a not in memo:
            if a in env:
                memo[a] = env[a]
            elif a[0] == 'fn' and any(b in env for k in a[2:] for b in of(k).atoms(True)):
                memo[a] = apply(a[1], [subst(of(k), env) for k in a[2:]])
            else:
                memo[a] = var(a)
        return memo[a]

    def poly(p):
        r = num(0)
        for m, v in p.items():
            y = num(v)
            for a, q in m:
                for _ in range(q):
                    y = y * at(a)
            r = r + y
        return r
    return poly(x.n) / poly(x.d)


def apply(n, xs):
    if n in ('sin', 'cos'):
        return trig(xs[0])[n == 'cos']
    if n == 'sqrt':
        return sqrt(xs[0])
    if n in ('max', 'min'):
        xs = sorted(xs, key=lambda x: repr(x.key()))
    return fn(n, *xs)


# ------------------------------------------------------------------- numbers
def bessel(n, x):
    t = 2000
    return sum(math.cos(n * (k + 0.5) * math.pi / t - x * math.sin((k + 0.5) * math.pi / t)) for k in range(t)) / t


FUN = {'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
       'tan': math.tan, 'cosh': math.cosh, 'sinh': math.sinh, 'tanh': math.tanh, 'atan2': math.atan2, 'pow': math.pow, 'abs': abs, 'max': max, 'min': min, 'fmod': math.fmod,
       'floor': math.floor, 'remainder': math.remainder, 'trunc': math.trunc, 'cyl_bessel_j': bessel, 'ceil': math.ceil, 'copysign': math.copysign, 'hypot': math.hypot, 'sqrt': math.sqrt}

CFUN = {'sin': cmath.sin, 'cos': cmath.cos, 'exp': cmath.exp, 'log': cmath.log, 'sqrt': cmath.sqrt, 'abs': abs, 'arg': cmath.phase, 'real': lambda z: z.real,
        'imag': lambda z: z.imag, 'conj': lambda z: z.conjugate()}
FUN['arg'] = cmath.phase


def value(x, env):
    def poly(p):
        t = 0.0
        for m, v in p.items():
            y = float(v)
            for a, q in m:
                y *= at(a) ** q
            t += y
        return t

    def at(a):
        if a == PI:
            return math.pi
        if a in env:
            return env[a]
        if a[0] == 'fn' and a[1] in FUN:
            xs = [value(of(k), env) for k in a[2:]]
            g = CFUN.get(a[1]) if any(isinstance(x, complex) for x in xs) else FUN[a[1]]
            if g is None:
                raise ValueError(a[1])
            v = env[a] = g(*xs)
            return v
        rnd = random.Random(f'{env["seed"]} {rank(a)}')
        v = env[a] = rnd.uniform(0.3, 1.9) * rnd.choice((1, 1, -1))
        return v
    return poly(x.n) / poly(x.d)


def differ(x, y, points=12, known=None):
    """None when the forms are equal; a point at which they differ otherwise;
    'agree' when the forms differ although no point tells them apart."""
    try:
        if x.same(y):
            return None
    except TooBig:
        pass
    good = 0
    for seed in range(200):
        env = {'seed': seed}
        if known:
            env.update(known(seed))
        try:
            a, b = value(x, env), value(y, env)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if isinstance(a, complex) or isinstance(b, complex) or a != a or b != b:
            continue
        if abs(a - b) > 1e-7 * (1 + abs(a) + abs(b)):
            return env, a, b
        good += 1
        if good >= points:
            break
    return 'agree' if good else 'unknown'


def show(x):
    def at(a):
        if a == PI:
            return 'pi'
        if a[0] == 'fn':
            return f'{a[1]}({", ".join(show(of(k)) for k in a[2:])})'
        return label(a)

    def poly(p):
        out = []
        for m, v in p.items():
            fs = [at(a) + (f'^{q}' if q != 1 else '') for a, q in m]
            if v != 1 or not fs:
                fs.insert(0, str(v) if v.denominator < 10**6 else f'{float(v):.6g}')
            out.append('*'.join(fs))
        return ' + '.join(out) if out else '0'
    n = poly(x.n)
    return n if x.d == ONE else f'({n}) / ({poly(x.d)})'


def label(t):
    k = t[0]
    if k == 'mem':
        return f'{label(t[1])}.{t[2].lstrip(".")}' if t[1] != ('this',) else t[2]
    if k == 'idx':
        return f'{label(t[1])}[{",".join(label(i) if isinstance(i, tuple) else str(i) for i in t[2])}]'
    if k in ('num', 'str', 'glob'):
        return str(t[1])
    if k == 'loc':
        return f'%{t[1][-1]}'
    if k == 'call':
        return f'{t[1]}({", ".join(label(x) for x in t[2:] if isinstance(x, tuple))})'
    if k == 'op':
        return f'({(" " + str(t[1]) + " ").join(label(x) for x in t[2:] if isinstance(x, tuple))})'
    return str(k)


# -------------------------------------------------------------------- terms
class Choice(Exception):
    def __init__(self, key, options):
        self.key, self.options = key, options


class Reader:
    """Value form of terms of evaluator s under a choice of paths."""
    PRODUCT = {'element_prod'}
    QUOTIENT = {'element_div'}

    def __init__(self, s, choice=None, leaf=None):
        self.s, self.choice, self.leaf = s, choice or {}, leaf
        self.active = []
        self.cache = {}

    def __call__(self, t):
        k = (t, tuple(self.active))
        if k not in self.cache:
            self.cache[k] = self.form(t)
        return self.cache[k]

    def form(self, t):
        if self.leaf:
            x = self.leaf(self, t)
            if x is not None:
                return x
        k = t[0]
        r = self
        if k == 'num' and isinstance(t[1], bool):
            return num(int(t[1]))
        if k == 'num' and isinstance(t[1], (int, float, Fraction)):
            return num(t[1])
        if k == 'glob' and t[1].split('::')[-1] in ('M_PI', 'PI'):
            return num(math.pi)
        if k == 'add':
            return r(t[1]) + num(t[2])
        if k == 'zero':
            return num(0)
        if k == 'new' and len(t) == 3 and t[1].split('::')[-1].split('<')[0] in ('matrix', 'c_matrix') and isinstance(t[2], tuple) and t[2][0] != 'num':
            return r(t[2])
        if k == 'op':
            if t[1] == 'neg':
                return -r(t[2])
            if t[1] in ('+', '-', '*', '/') and len(t) == 4:
                a, b = r(t[2]), r(t[3])
                return a + b if t[1] == '+' else a - b if t[1] == '-' else a * b if t[1] == '*' else a / b
            if t[1] == '?:':
                i = self.pick(('?', t[2]), (0, 1), t[2])
                return r(t[3 + i])
        if k == 'call':
            x = self.function(t)
            if x is not None:
                return x
        if k == 'phi':
            u = self.phi(t)
            if u is not None:
                return u
        if k == 'idx' and t[1][0] == 'phi' and t[1] in self.s.phi and not self.loop(t[1]):
            ps = self.s.phi[t[1]]
            p = self.pick(t[1][1], tuple(sorted(ps)), None)
            return r(index(ps[p], t[2]))
        if k in ('idx', 'mem'):
            u = self.place(t)
            if u != t:
                return r(u)
        return var(t)

    def place(self, t):
        """The place on the chosen path when it lies in an object that was chosen."""
        if t[0] in ('mem', 'idx', '&') and isinstance(t[1], tuple):
            b = self.place(t[1])
            return (t[0], b) + t[2:] if b != t[1] else t
        if t[0] == 'op' and t[1] == '?:':
            x = self.place(t[3 + self.pick(('?', t[2]), (0, 1), t[2])])
            return x[1] if x[0] == '&' else x
        if t[0] == 'phi' and t[2][0] == 'loc' and not self.loop(t):
            x = next((x for x in tree(self.s) if t in x.phi), None)
            if x is not None and all(v[0] in ('&', 'mem', 'loc') for v in x.phi[t].values()):
                ps = x.phi[t]
                x = self.place(ps[self.pick(t[1], tuple(sorted(ps)), None)])
                return x[1] if x[0] == '&' else x
        return t

    def loop(self, t):
        s = self.s
        for x in tree(s):
            if t[1][:-1] == x.tag:
                return t[1][-1] in x.heads
        return False

    def phi(self, t):
        x = next((x for x in tree(self.s) if t in x.phi), None)
        if x is None or t[2][0] == 'ver':
            return None
        ps = x.phi[t]
        if t[1][-1] in x.heads:
            return self.around(x, t, ps)
        vals = {ps[p] for p in ps}
        if len(vals) == 1:
            return self(vals.pop())
        p = self.pick(t[1], tuple(sorted(ps)), None)
        return self(ps[p])

    def around(self, x, t, ps):
        """A matrix after a loop over its elements: what the loop does to one element."""
        if not getattr(x, 'pointwise', False):
            return None
        back = {ps[p] for p in ps if (p, t[1][-1]) in x.back}
        entry = {ps[p] for p in ps if (p, t[1][-1]) not in x.back}
        if len(back) != 1 or len(entry) != 1:
            return None
        if t in self.active:
            return self(entry.pop())
        l = t[2]
        if l[0] == 'loc':
            v = x.fn.locals.get(l[1][-1]) if l[1][:-1] == x.tag and l[1][0] != 'obj' else None
            ty = v['t'] if v else ''
            if v is None and l[1][0] != 'obj' or v and 'matrix' not in ty and 'vector' not in ty:
                return None
        self.active.append(t)
        try:
            return self(back.pop())
        finally:
            self.active.pop()

    def pick(self, key, options, cond):
        if key in self.choice:
            return self.choice[key]
        raise Choice(key, options)

    def function(self, t):
        n, a = t[1], t[2:]
        r = self
        if any(not isinstance(x, tuple) for x in a):
            return None
        if n in self.PRODUCT and len(a) == 2:
            return r(a[0]) * r(a[1])
        if n in self.QUOTIENT and len(a) == 2:
            return r(a[0]) / r(a[1])
        if n == 'abs2' and len(a) == 1:
            x = r(a[0])
            return x * x
        if n == 'sqrt' and len(a) == 1:
            return sqrt(r(a[0]))
        if n == 'pow' and len(a) == 2:
            x, y = r(a[0]), r(a[1])
            k = y.number()
            if k is not None and k.denominator == 1 and 0 <= k <= 6:
                z = num(1)
                for _ in range(int(k)):
                    z = z * x
                return z
            if k == Fraction(1, 2):
                return sqrt(x)
            return fn('pow', x, y)
        if n in ('sin', 'cos', 'tan') and len(a) == 1:
            s, c = trig(r(a[0]))
            return s if n == 'sin' else c if n == 'cos' else s / c
        rad = Rat(Poly({((PI, 1),): Fraction(1, 180)}))
        if n in ('to_radians', 'to_degrees') and len(a) == 1:
            return r(a[0]) * rad if n == 'to_radians' else r(a[0]) / rad
        if n == 'to_colatitude' and len(a) == 1:
            return (num(90) - r(a[0])) * rad
        if n == 'to_latitude' and len(a) == 1:
            return num(90) - r(a[0]) / rad
        if n in ('abs', 'fabs') and len(a) == 1:
            return fn('abs', r(a[0]))
        if n in FUN and a:
            xs = [r(x) for x in a]
            if n in ('max', 'min'):
                xs.sort(key=lambda x: repr(x.key()))
            return fn(n, *xs)
        if n == 'operator()' and len(a) > 1:
            return r(('idx', a[0], a[1:]))
        if n in ('inner_prod',) and len(a) == 2:
            z = num(0)
            for i in range(3):
                z = z + r(index(a[0], (('num', i),))) * r(index(a[1], (('num', i),)))
            return z
        return None


def tree(s):
    yield s
    for x in s.nested.values():
        yield from tree(x)


def index(t, ix):
    """Element ix of a vector or matrix valued term."""
    k = t[0]
    if k == 'mat':
        from symterm import Sym
        for q, v in t[2]:
            if q == ix:
                return v
        if all(Sym.distinct(q, ix) for q, v in t[2]):
            return index(t[1], ix)
    if t == ('zero',) or k == 'new' and t[1].split('::')[-1].split('<')[0] in ('zero_matrix', 'zero_vector'):
        return ('num', 0)
    if k == 'op' and t[1] == 'neg':
        return ('op', 'neg', index(t[2], ix))
    if k == 'op' and t[1] in ('+', '-'):
        return ('op', t[1], index(t[2], ix), index(t[3], ix))
    if k == 'op' and t[1] == '/':
        return ('op', '/', index(t[2], ix), t[3])
    if k == 'op' and t[1] == '*':
        a, b = t[2], t[3]
        return ('op', '*', a, index(b, ix)) if vectorial(b) and not vectorial(a) else ('op', '*', index(a, ix), b)
    if k == 'new' and len(t) == 3 and isinstance(t[2], tuple) and t[2][0] != 'num' and t[1].split('::')[-1].split('<')[0] in ('c_matrix', 'c_vector', 'matrix', 'vector'):
        return index(t[2], ix)
    if k == 'call' and t[1] == 'prod' and len(t) == 4:
        z = ('num', 0)
        for j in (0, 1, 2):
            J = ('num', j)
            x = ('op', '*', index(t[2], ix[:1] + (J,)), index(t[3], (J,) + ix[1:]))
            z = ('op', '+', z, x)
        return z
    if k == 'call' and t[1] in ('column', 'row') and len(t) == 4 and len(ix) == 1:
        return index(t[2], ix + t[3:] if t[1] == 'column' else t[3:] + ix)
    if k == 'call' and t[1] == 'trans' and len(t) == 3 and len(ix) == 2:
        return index(t[2], ix[::-1])
    return ('idx', t, ix)


def vectorial(t):
    return t[0] == 'mat' or t[0] == 'call' and t[1] in ('prod', 'trans') or t[0] == 'op' and any(vectorial(x) for x in t[2:] if isinstance(x, tuple)) or t[0] == 'new' and ('_vector' in t[1] or '_matrix' in t[1])


def forms(s, terms, leaf=None, reader=Reader, limit=64):
    """[(choice, [form of each term])] over the consistent choices of paths."""
    out, work = [], [{}]
    while work:
        ch = work.pop()
        try:
            rd = reader(s, ch, leaf)
            out.append((ch, [rd(t) for t in terms]))
            if len(out) > limit:
                raise TooBig
        except Choice as e:
            work += [{**ch, e.key: o} for o in e.options]
            if len(work) > limit:
                raise TooBig
    return out
