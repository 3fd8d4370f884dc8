"""G01: sequences of numbers and the grids that interpolate between them."""
import math
import random
import algebra as A
from machine import *
from result import Result

RULE = ('the numeric functions of the sequences and grids are evaluated abstractly over exact terms (axis values, increments, table elements, location), with one '
        'partition of the inputs for each combination of comparisons; the value and the slopes of each partition must be identical to those of the interpolation that '
        'was requested')
NEAREST, LINEAR, PCHIP = -1, 0, 1
NAMES = {NEAREST: 'nearest', LINEAR: 'linear', PCHIP: 'pchip'}


class Axis:
    """Axis number d: n is its size, None when any size of four or more."""
    shared = True

    def __init__(self, d, n=None):
        self.d, self.n = d, n

    def size(self):
        return self.n if self.n is not None else atom('int size', self.d)


class Axes:
    shared = True

    def __init__(self, axes):
        self.axes = axes


class Table:
    shared = True


# ------------------------------------------------------------- exact forms
def steps(name, inc):
    """Canonical form of element k of axis d: elements that differ by a number of places differ by the increments between them."""
    def leaf(t, form):
        n, a = t.a[0], t.a[1:]
        if n == name:
            k = form(a[1])
            c = constant(k)
            base = k - A.num(c)
            r = A.apply(name, [A.num(a[0]), base])
            for j in range(min(c, 0), max(c, 0)):
                i = A.apply(inc, [A.num(a[0]), base + A.num(j)])
                r = r + i if c > 0 else r - i
            return r
        return None
    return leaf


def constant(r):
    """The constant term of an integer polynomial."""
    c = r.n.get((), 0) if r.d == A.const(1) else 0
    return int(c) if c == int(c) else 0


leaf = steps('ax', 'inc')


def same(x, y, budget=4000):
    if x is y:
        return True
    if size(x, y) > budget:
        return None
    memo = {}
    try:
        return rat(x, leaf, memo).same(rat(y, leaf, memo))
    except (A.TooBig, A.Unknown, ZeroDivisionError):
        return None


def size(*ts):
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if isinstance(t, T) and id(t) not in seen:
            seen.add(id(t))
            todo += t.a
    return len(seen)


def close(a, b, scale=1.0):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= 1e-7 * max(scale, abs(a), abs(b))


# ------------------------------------------------------------ sample points
class World:
    """Axes and a table with numbers."""

    def __init__(self, rnd, axes, inside=None, ties=False, even=False):
        self.axes, self.x = axes, []
        for a in axes:
            n = a.n or rnd.randint(4, 7)
            sign = rnd.choice((1, -1))
            v, x = rnd.uniform(-3, 3), []
            same = even or rnd.random() < 0.3
            h = rnd.uniform(0.5, 2)
            for _ in range(n):
                x.append(v)
                v += sign * (h if same else rnd.uniform(0.3, 2.5))
            self.x.append(x)
        self.loc = [self.place(rnd, x, inside) for x in self.x]
        self.rnd = random.Random(rnd.random())
        self.shape = rnd.choice(('any', 'any', 'rise', 'steps') if ties else ('any', 'any', 'rise'))
        self.memo = {}

    def place(self, rnd, x, inside):
        if len(x) == 1:
            return x[0] + rnd.choice((0, 1.3, -0.7))
        r = rnd.random()
        if r < 0.15 and not inside:
            return x[0] - (x[1] - x[0]) * rnd.uniform(0.2, 2)
        if r < 0.3 and not inside:
            return x[-1] + (x[-1] - x[-2]) * rnd.uniform(0.2, 2)
        if r < 0.4:
            return rnd.choice(x)
        k = rnd.randrange(len(x) - 1)
        return x[k] + (x[k + 1] - x[k]) * rnd.choice((0.1, 0.3, 0.45, 0.6, 0.7, 0.95, rnd.random()))

    def find(self, d, v):
        x = self.x[int(d)]
        s = 1 if len(x) < 2 or x[1] > x[0] else -1
        k = 0
        while k < len(x) - 2 and v * s >= x[k + 1] * s:
            k += 1
        return k

    def near(self, d, v):
        x = self.x[int(d)]
        return min(range(len(x)), key=lambda k: (abs(x[k] - v), -k))

    def ax(self, d, k):
        x = self.x[int(d)]
        return x[max(0, min(len(x) - 1, int(k)))] if k >= 0 else x[-1]

    def inc(self, d, k):
        x = self.x[int(d)]
        if len(x) == 1:
            return 1.0
        k = int(k) if k >= 0 else len(x) - 1
        k = min(k, len(x) - 2)
        return x[k + 1] - x[k]

    def tab(self, o):
        o = int(round(o))
        n = math.prod(len(x) for x in self.x)
        if not 0 <= o < n:
            return math.nan
        if not self.memo:
            r = self.rnd
            v, t = 0.0, []
            for i in range(n):
                v = r.uniform(-2, 2) if self.shape == 'any' else v + r.uniform(0.01, 2) if self.shape == 'rise' else r.choice((0.0, 1.0, 2.5))
                t.append(v)
            self.memo = dict(enumerate(t))
        return self.memo[o]

    def point(self):
        at = {('int size', d): float(len(x)) for d, x in enumerate(self.x)}
        at.update({('loc', d): v for d, v in enumerate(self.loc)})
        p = Point(at, {'ax': self.ax, 'inc': self.inc, 'int find': self.find, 'int near': self.near, 'tab': self.tab})
        p.world = self
        return p


# ------------------------------------------------------ what is interpolated
def ax(d, k):
    return fn('ax', d, k)


def inc(d, k):
    return fn('inc', d, k)


class Want:
    """The interpolation that the reference describes, at one sample point."""

    def __init__(self, axes, types, limit, p, loc=None):
        self.axes, self.types, self.p, self.k, self.loc = axes, list(types), p, [], []
        for d, a in enumerate(axes):
            x = loc[d] if loc else atom('loc', d)
            if a.n == 1:
                k, x, self.types[d] = 0, ax(d, 0), None
            else:
                n, s = a.size(), p(inc(d, 0))
                last = add(n, -1)
                if limit[d] and p(x) * s <= p(ax(d, 0)) * s:
                    x, k = ax(d, 0), 0
                elif limit[d] and p(x) * s >= p(ax(d, last)) * s:
                    x, k = ax(d, last), add(n, -2)
                else:
                    k = fn('int find', d, x)
            self.k.append(k)
            self.loc.append(x)

    def element(self, idx):
        o = idx[0]
        for d in range(1, len(idx)):
            o = add(idx[d], mul(self.axes[d].size(), o))
        return fn('tab', o)

    def at(self, d, idx):
        """Value and slopes at table index idx of axes above d."""
        if d < 0:
            return self.element(idx), []
        t, k, x, p = self.types[d], idx[d], self.loc[d], self.p
        up = lambda n: self.at(d - 1, idx[:d] + [add(k, n)] + idx[d + 1:])
        if t is None:
            v, s = up(0)
            return v, s + [0]
        s = sub(x, ax(d, k))
        if t == NEAREST:
            v, sl = up(0 if p(s) / p(inc(d, k)) < 0.5 else 1)
            return v, sl + [0]
        h = inc(d, k)
        u = div(s, h)
        a, b = up(0), up(1)
        if t == LINEAR:
            f = lambda y, z: add(mul(y, sub(1, u)), mul(z, u))
            return f(a[0], b[0]), [f(y, z) for y, z in zip(a[1], b[1])] + [div(sub(b[0], a[0]), h)]
        n = self.axes[d].size()
        first, final = p(k) < 1, p(k) > p(n) - 3
        y = [None if first else up(-1), a, b, None if final else up(2)]
        hs = [None if first else inc(d, add(k, -1)), h, None if final else inc(d, add(k, 1))]
        v, m = self.hermite([q and q[0] for q in y], hs, s)
        sl = [self.hermite([q and q[1][j] for q in y], hs, s)[0] for j in range(d)]
        return v, sl + [add(mul(m[0], sub(1, u)), mul(m[1], u))]

    def hermite(self, y, hs, s):
        h0, h, h2 = hs
        d0 = None if h0 is None else div(sub(y[1], y[0]), h0)
        d1 = div(sub(y[2], y[1]), h)
        d2 = None if h2 is None else div(sub(y[3], y[2]), h2)
        m1 = self.end(d1, d2, h, h2) if h0 is None else self.mean(d0, d1, h0, h)
        m2 = self.end(d1, d0, h, h0) if h2 is None else self.mean(d1, d2, h, h2)
        t = div(s, h)
        one = sub(1, t)
        b = mul(mul(t, t), sub(3, mul(2, t)))
        v = add(add(mul(y[2], b), mul(y[1], sub(1, b))), mul(h, mul(mul(t, one), sub(mul(m1, one), mul(m2, t)))))
        return v, (m1, m2)

    def mean(self, d0, d1, h0, h1):
        """Slope between two intervals."""
        if self.p(d0) * self.p(d1) <= 0:
            return 0
        w0, w1 = add(mul(2, h1), h0), add(h1, mul(2, h0))
        return div(add(w0, w1), add(div(w0, d0), div(w1, d1)))

    def end(self, d1, d2, h1, h2):
        """Slope at an end: d1 is the difference next to it."""
        p = self.p
        m = div(sub(mul(add(mul(2, h1), h2), d1), mul(h1, d2)), add(h1, h2))
        if p(m) * p(d1) <= 0:
            return 0
        if p(d1) * p(d2) < 0 and abs(p(m)) > abs(3 * p(d1)):
            return mul(3, d1)
        return m

    def __call__(self):
        return self.at(len(self.axes) - 1, list(self.k))


# ------------------------------------------------------------------- hooks
def hook(m, what, recv, info):
    if what == 'ctor':
        return None
    r = val(recv)
    if what == 'sub':
        if isinstance(r, Axes):
            return Cell(r.axes[m.s.integer(info[0])])
        if isinstance(r, Store):
            return r.cells.setdefault(info[0], Cell())
        if isinstance(r, Table):
            return Cell(fn('tab', info[0]))
        if isinstance(r, Axis):
            return Cell(fn('ax', r.d, info[0]))
        return None
    nd, fr, c = info
    n = nd.get('q', '').split('::')[-1]
    if isinstance(r, Axis):
        if nd.get('op') == '->' or nd.get('op') == '*' and not c or n == 'get':
            return (r,)
        if n == 'size':
            return (r.size(),)
        if n in ('begin', 'rbegin', 'end'):
            return (Ptr(r, 0 if n == 'begin' else r.size() if n == 'end' else add(r.size(), -1)),)
        if nd.get('op') in ('()', '[]'):
            return (clamp(m, 'ax', r, m.v(fr, c[0])),)
        if n == 'increment':
            return (clamp(m, 'inc', r, m.v(fr, c[0])),)
        if n == 'find_index':
            return (fn('int find', r.d, m.v(fr, c[0])) if r.n != 1 else 0,)
        if n == 'find_nearest':
            return (fn('int near', r.d, m.v(fr, c[0])) if r.n != 1 else 0,)
    if isinstance(r, (Table, Axes)) and (n in ('get', 'data', 'operator->') or nd.get('op') in ('->', '[]')):
        return (m.at(r, m.v(fr, c[0])),) if nd.get('op') == '[]' else (r,)
    if isinstance(r, Ptr) and isinstance(r.arr, (Table,)) and n == 'get':
        return (r,)
    return None


def clamp(m, what, a, k):
    return fn(what, a.d, 0 if a.n == 1 else k)


def grid(cls, axes, types, limit):
    n = len(axes)
    o = Obj(cls)
    o.cell('_axis').v = Axes(axes)
    o.cell('_data').v = Table()
    for name, vs in (('_interp_type', types), ('_edge_limit', limit)):
        a = Arr(None, n)
        for d, v in enumerate(vs):
            a.cell(d).v = v
        o.cell(name).v = a
    return o


# -------------------------------------------------------------------- judge
class Judge:
    def __init__(self, P, R):
        self.P, self.R = P, R

    def compare(self, f, what, points, body, want, outputs, keyed=None, hook=hook, spec=None, exact=True):
        """body(machine) -> list of terms; want(point) -> list of terms."""
        R = self.R
        seen = set()
        done, unset = 0, None
        for r, s in cases(self.P, points, body, hook):
            R.count('partitions of the inputs')
            if isinstance(r, Unset):
                unset = unset or s.alive and s.alive[0]
            else:
                done += not isinstance(r, Exception)
            if isinstance(r, Thrown):
                r = [None] * len(outputs)
            if isinstance(r, Exception):
                self.missing.setdefault(f'{f.short}: {r}', what)
                continue
            groups = {}
            for p in s.alive:
                w = want(p)
                groups.setdefault(tuple(id(x) if isinstance(x, T) else x for x in w), (w, []))[1].append(p)
            for w, ps in groups.values():
                for name, x, y in zip(outputs, r, w):
                    if y is SKIP:
                        continue
                    x, y = [norm(v) if isinstance(v, (bool, float)) else v for v in (x, y)]
                    R.count('values compared')
                    k = keyed(name) if keyed else f'{f.short}|{what}|{name}'
                    if x is None or isinstance(x, (Obj, Arr, Ptr)):
                        R.violation(k, f'{f.short}: the {name} has no value ({what})', f.loc())
                        continue
                    bad = [p for p in ps if not close(p(x), p(y))]
                    if bad:
                        p = bad[0]
                        R.violation(k, f'{f.short}: the {name} is not the one of {spec or "the interpolation"} ({what}): {p(x):.5g} instead of {p(y):.5g}{describe(p)}', f.loc())
                    elif x is y or exact and same(x, y):
                        R.count('identities')
                        seen.add(name)
        if unset and done:
            R.violation(keyed('value') if keyed else f'{f.short}|{what}|unset', f'{f.short}: uses a value that has not been set ({what}){describe(unset)}', f.loc())
        return seen

    missing = {}


SKIP = object()


def describe(p):
    w = getattr(p, 'world', None)
    if w is None:
        return ''
    return ' at ' + ', '.join(f'{v:.3g} on the axis ' + ' '.join(f'{q:.3g}' for q in x) for x, v in zip(w.x, w.loc))


def method(P, cls, name, n=None, like=''):
    c = [f for f in P.fns.values() if f.cls == cls and f.q.split('::')[-1] == name and f.entry is not None and (n is None or len(f.params) == n) and like in ' '.join(p['t'] for p in f.params)]
    return c[0] if c else None


def interpolation(P, R, J):
    rnd = random.Random(7)
    plans = {1: [((t,), (l,)) for t in (NEAREST, LINEAR, PCHIP) for l in (True, False)],
             2: [((s, t), l) for s in (NEAREST, LINEAR, PCHIP) for t in (NEAREST, LINEAR, PCHIP) for l in ((True, True), (False, False))][::1],
             3: [((LINEAR,) * 3, (False,) * 3), ((LINEAR,) * 3, (True,) * 3), ((NEAREST, LINEAR, LINEAR), (True, False, True)), ((PCHIP, LINEAR, LINEAR), (True,) * 3),
                 ((LINEAR, PCHIP, LINEAR), (True, False, True)), ((LINEAR, NEAREST, LINEAR), (False,) * 3), ((LINEAR, LINEAR, NEAREST), (True,) * 3), ((LINEAR, LINEAR, PCHIP), (True,) * 3),
                 ((PCHIP,) * 3, (True,) * 3)]}
    for dims, plan in plans.items():
        cls = f'usml::types::gen_grid<{dims}>'
        f = method(P, cls, 'interpolate', 2)
        if f is None:
            continue
        shapes = [(None,) * dims] + [tuple(1 if d == e else None for d in range(dims)) for e in range(dims)]
        for types, limit in plan:
            for shape in shapes:
                if any(n == 1 and t != NEAREST for n, t in zip(shape, types)) and shape != shapes[0]:
                    types_ = tuple(NEAREST if n == 1 else t for n, t in zip(shape, types))
                else:
                    types_ = types
                if shape != shapes[0] and PCHIP in types and dims == 3:
                    continue
                axes = [Axis(d, n) for d, n in enumerate(shape)]
                n = {1: 400, 2: 150, 3: 40}[dims]
                if shape != shapes[0]:
                    n //= 4
                points = [World(rnd, axes, ties=dims == 1).point() for _ in range(n)]
                for slopes in (True, False):
                    what = ' by '.join('one point' if k == 1 else NAMES[t] for t, k in zip(types_, shape)) + (' limited' if limit[0] else '') + ('' if slopes else ', value only')
                    if not slopes and shape != shapes[0]:
                        continue

                    def body(m):
                        loc, out = Arr(None, dims), Arr(None, dims)
                        for d in range(dims):
                            loc.cell(d).v = atom('loc', d)
                        v = m.call(f, grid(cls, axes, types_, limit), [Ptr(loc), Ptr(out) if slopes else None])
                        return [v] + [out.cell(d).v for d in range(dims)] if slopes else [v]

                    def want(p):
                        v, s = Want(axes, types_, limit, p)()
                        return [v] + s
                    names = ['value'] + [f'slope along axis {d}' for d in range(dims)]
                    R.count('interpolations')
                    J.compare(f, what, points, body, want, names if slopes else names[:1],
                              exact=dims == 1 or PCHIP not in types_)



# ------------------------------------------------- settings and elements
def settings(P, R, J):
    rnd = random.Random(3)
    for dims in (1, 2, 3):
        cls = f'usml::types::data_grid<{dims}>'
        f = next((g for g in P.fns.values() if g.cls == cls and g.kind == 'ctor' and not g.params and g.entry is not None), None) if dims else None
        if f is not None:
            def body(m):
                o = Obj(cls)
                for n in ('_interp_type', '_edge_limit'):
                    o.cell(n).v = Arr(None, dims)
                m.call(f, o, [])
                return [val(o.cell(n).v.cell(d)) for d in range(dims) for n in ('_interp_type', '_edge_limit')]
            J.compare(f, 'new grid', [Point({}, {})], body, lambda p: [LINEAR, 1] * dims, ['initial setting'] * 2 * dims, spec='a new grid (linear, limited)')
        f = method(P, cls, 'interp_type', 2)
        g = method(P, cls, 'interp_type', 1)
        if f and g:
            for n in (1, 2, 3, 4, 5):
                for t in (NEAREST, LINEAR, PCHIP):
                    def body(m):
                        o = grid(cls, [Axis(d, n if d == dims - 1 else 6) for d in range(dims)], [7] * dims, [True] * dims)
                        m.call(f, o, [dims - 1, t])
                        return [m.call(g, o, [d]) for d in range(dims)]
                    J.compare(f, f'{NAMES[t]} for {n} point' + ('s' if n > 1 else ''), [Point({}, {})], body,
                              lambda p: [7] * (dims - 1) + [NEAREST if n < 2 else min(t, LINEAR) if n < 4 else t], ['type'] * dims, spec='the axis')
        f = method(P, cls, 'edge_limit', 2)
        g = method(P, cls, 'edge_limit', 1)
        if f and g:
            for v in (True, False):
                def body(m):
                    o = grid(cls, [Axis(d) for d in range(dims)], [0] * dims, [not v] * dims)
                    m.call(f, o, [dims - 1, v])
                    return [m.call(g, o, [d]) for d in range(dims)]
                J.compare(f, 'edge limit', [Point({}, {})], body, lambda p: [int(not v)] * (dims - 1) + [int(v)], ['flag'] * dims, spec='the axis')
        axes = [Axis(d) for d in range(dims)]
        points = []
        for _ in range(12):
            w = World(rnd, axes)
            p = w.point()
            for d in range(dims):
                p.atoms[('int index', d)] = rnd.randrange(len(w.x[d]))
            points.append(p)
        idx = [atom('int index', d) for d in range(dims)]

        def indices():
            a = Arr(None, dims)
            for d in range(dims):
                a.cell(d).v = idx[d]
            return Ptr(a)
        element = lambda p: [Want.element(Plain(axes), idx)]
        f = method(P, cls, 'data', 1)
        if f:
            J.compare(f, 'element', points, lambda m: [m.call(f, grid(cls, axes, [0] * dims, [True] * dims), [indices()])], element, ['element'], spec='the index')
        f = method(P, f'usml::types::gen_grid<{dims}>', 'setdata')
        if f:
            def body(m):
                o = grid(f.cls, axes, [0] * dims, [True] * dims)
                w = Store()
                o.cell('_writeable_data').v = w
                o.cell('_data').v = w
                m.call(f, o, [indices(), atom('value')])
                if len(w.cells) != 1:
                    raise Unsupported('number of elements stored')
                (k, c), = w.cells.items()
                return [fn('tab', k), c.v]
            J.compare(f, 'element', [at(p, {'value': 2.5}) for p in points], body, lambda p: element(p) + [atom('value')], ['element', 'value'], spec='the index')


class Plain:
    def __init__(self, axes):
        self.axes = axes


class Store(Table):
    def __init__(self):
        self.cells = {}


def at(p, more):
    q = Point({**p.atoms, **more}, p.functions)
    if hasattr(p, 'world'):
        q.world = p.world
    return q


# ------------------------------------------------------- many locations
def many(P, R, J):
    """Variants for matrices: each element of the results is the one of the location with its index."""
    def plain(m, what, recv, info):
        if what == 'call':
            nd, fr, c = info
            if nd.get('q', '').split('::')[-1] == 'interpolate' and len(c) <= 2:
                a = [m.v(fr, x) for x in c]
                if isinstance(a[0], (Ptr, Arr)):
                    loc = [m.at(a[0], d).v for d in range(m.dims)]
                    if len(a) > 1 and a[1] is not None:
                        for d in range(m.dims):
                            m.at(a[1], d).v = fn('slope', d, *loc)
                    return (fn('value', *loc),)
        return hook(m, what, recv, info)
    for f in list(P.fns.values()):
        if f.q is None or f.entry is None or f.cls is None or f.q.split('::')[-1] != 'interpolate' or not f.cls.startswith('usml::types::') or len(f.params) < 3:
            continue
        if 'matrix' not in f.params[0]['t']:
            continue
        ins = [k for k, p in enumerate(f.params) if p['t'].rstrip().endswith('&')]
        if f'<{len(ins)}>' not in f.cls and not (f.cls.endswith('svp') and len(ins) == 3 or f.cls.endswith('bathy') and len(ins) == 2):
            continue
        dims = len(ins)
        for slopes in (True, False):
            def body(m):
                m.dims = dims
                args = []
                for k, p in enumerate(f.params):
                    a = Arr(None, (2, 3))
                    for i in range(2):
                        for j in range(3):
                            a.cell((i, j)).v = atom('x', k, i, j) if k in ins else None
                    args.append(a if k in ins else Ptr(Arr(lambda _, a=a: a)))
                outs = args[dims:]
                if not slopes:
                    args = args[:dims + 1] + [None] * dims
                m.call(f, Obj(f.cls), args)
                return [o.arr.cell(0).v.cell((i, j)).v for o in (outs if slopes else outs[:1]) for i in range(2) for j in range(3)]

            def want(p):
                loc = lambda i, j: [atom('x', k, i, j) for k in range(dims)]
                r = [fn('value', *loc(i, j)) for i in range(2) for j in range(3)]
                for d in range(dims if slopes else 0):
                    r += [fn('slope', d, *loc(i, j)) for i in range(2) for j in range(3)]
                return r
            rnd = random.Random(5)
            t = {('x', k, i, j): rnd.uniform(-1, 1) for k in range(dims) for i in range(2) for j in range(3)}
            mix = lambda *a: math.sin(sum((n + 1.3) * x for n, x in enumerate(a)))
            p = Point(t, {'value': mix, 'slope': lambda *a: 3 + mix(*a)})
            names = ['value'] * 6 + [f'slope along axis {d}' for d in range(dims) for _ in range(6)]
            J.compare(f, 'matrix' + ('' if slopes else ' without slopes'), [p], body, want, names if slopes else names[:6], hook=plain, spec='the location with the same index')
            R.count('variants for many locations')


# ------------------------------------------- slopes of PCHIP, per type of data
def rules(P, R, J):
    """The limited slopes of grids of numbers, complex numbers, vectors and matrices: each element by itself."""
    for f in list(P.fns.values()):
        q = f.q or ''
        if f.entry is None or not q.startswith('usml::types::') or q.split('::')[-1] != 'compute' or 'derivative' not in (f.cls or ''):
            continue
        end = 'end_point' in f.cls
        kind = next((k for k in ('vector', 'matrix', 'complex') if k in f.cls), 'number')
        shape = {'vector': 2, 'matrix': (2, 2)}.get(kind)
        cells = {'vector': [0, 1], 'matrix': [(i, j) for i in range(2) for j in range(2)]}.get(kind, [None])
        rnd = random.Random(9)
        names = ['d0', 'd1', 'dd0', 'dd1'] + ([] if end else ['w0', 'w1'])
        points = []
        for _ in range(60):
            t = {}
            for c in cells:
                for x in names + ['m', 'dm']:
                    t[(x, c)] = rnd.choice([1, 1, -1]) * rnd.uniform(0.2, 4) * (rnd.random() > 0.15)
                for x in ('w0', 'w1'):
                    t[(x, c)] = rnd.uniform(0.5, 3)
            points.append(Point(t, {}))

        for second in (True, False):
            def body(m):
                def whole(x):
                    if shape is None or x in ('w0', 'w1'):
                        return atom(x, cells[0])
                    a = Arr(None, shape)
                    for c in cells:
                        a.cell(c).v = atom(x, c)
                    return a
                out = {}
                args = []
                for p, x in zip(f.params, names[:4] + (names[4:] + [second, 'm', 'dm'])):
                    if x in ('m', 'dm'):
                        v = whole(x)
                        if not end:
                            v = 0 if shape is None else Arr(0, shape)
                        out[x] = Cell(v)
                        args.append(out[x])
                    else:
                        args.append(x if isinstance(x, bool) else whole(x))
                m.call(f, None, args)
                r = []
                for x in ('m', 'dm'):
                    v = out[x].v
                    r += [v.cell(c).v for c in cells] if shape else [v]
                return r

            def want(p):
                r = []
                for a, b, x in (('d0', 'd1', 'm'), ('dd0', 'dd1', 'dm')):
                    for c in cells:
                        d0, d1, m = atom(a, c), atom(b, c), atom(x, c)
                        w0, w1 = atom('w0', cells[0]), atom('w1', cells[0])
                        u, v, g = p(d0), p(d1), p(m)
                        if x == 'dm' and not second:
                            r.append(0 if end else SKIP)
                        elif end and kind == 'complex':
                            r.append(m)
                        elif end:
                            r.append(0 if g * u <= 0 else mul(3, d0) if u * v < 0 and abs(g) > abs(3 * u) else m)
                        elif (u * v > 0 if kind != 'complex' else u != 0 and v != 0):
                            r.append(div(add(w0, w1), add(div(w0, d0), div(w1, d1))))
                        else:
                            r.append(0)
                return r
            out = [f'{x} of element {c}' if shape else x for x in ('slope', 'slope along an earlier axis') for c in cells]
            what = f'{"end of the axis" if end else "between intervals"}, {kind}{"" if second else ", without slopes along earlier axes"}'
            J.compare(f, what, points, body, want, out, spec='the limited harmonic mean' if not end else 'the limited three point formula')
            R.count('kinds of data')


# ------------------------------------------------------------ the fast grids
class Exact(Want):
    """The slope is the derivative of the value."""

    def hermite(self, y, hs, s):
        v, m = super().hermite(y, hs, s)
        h = hs[1]
        t = div(s, h)
        one = sub(1, t)
        d = div(sub(y[2], y[1]), h)
        r = add(mul(d, mul(6, mul(t, one))), add(mul(m[0], mul(one, sub(1, mul(3, t)))), mul(m[1], mul(t, sub(mul(3, t), 2)))))
        self.slope = r
        return v, m

    def at(self, d, idx):
        v, s = super().at(d, idx)
        if self.types[d] == PCHIP and d >= 0:
            s = s[:-1] + [self.slope]
        return v, s


def made(P, cls, m, axes, types, limit):
    """A fast grid made from a table."""
    f = next((g for g in P.fns.values() if g.cls == cls and g.kind == 'ctor' and len(g.params) == 1 and 'data_grid<' in g.params[0]['t']), None)
    if f is None:
        raise Unsupported(f'constructor of {cls}')
    src = grid(f'usml::types::gen_grid<{len(axes)}>', axes, types, limit)
    o = Obj(cls)
    o.cell('_axis').v = Axes(list(axes))
    for n in ('_interp_type', '_edge_limit'):
        o.cell(n).v = Arr(None, len(axes))
    o.cell('_axis').v = Arr(None, len(axes))
    m.call(f, o, [src])
    return o


def fast(P, R, J):
    rnd = random.Random(11)
    cls = 'usml::types::data_grid_svp'
    f = method(P, cls, 'interpolate', 2)
    for limit in (True, False) if f else ():
        axes = [Axis(0, 5), Axis(1, 3), Axis(2, 3)]
        points = [World(rnd, axes, inside=None).point() for _ in range(60)]
        types = (PCHIP, LINEAR, LINEAR)
        for slopes in (True, False):
            def body(m):
                loc, out = Arr(None, 3), Arr(None, 3)
                for d in range(3):
                    loc.cell(d).v = atom('loc', d)
                o = made(P, cls, m, axes, types, (limit,) * 3)
                v = m.call(f, o, [Ptr(loc), Ptr(out) if slopes else None])
                return [v] + ([out.cell(d).v for d in range(3)] if slopes else [])

            def want(p):
                v, s = Exact(axes, types, (limit,) * 3, p)()
                return [v] + (s if slopes else [])
            J.compare(f, ('limited' if limit else 'not limited') + ('' if slopes else ', value only'), points, body, want, ['value'] + [f'slope along axis {d}' for d in range(3 if slopes else 0)],
                      exact=False)
            R.count('interpolations')
    cls = 'usml::types::data_grid_bathy'
    f = method(P, cls, 'interpolate', 2)
    for t in (NEAREST, LINEAR) if f else ():
        for limit in (True, False):
            axes = [Axis(0, 5), Axis(1, 4)]
            points = [World(rnd, axes).point() for _ in range(60)]

            def body(m):
                loc, out = Arr(None, 2), Arr(None, 2)
                for d in range(2):
                    loc.cell(d).v = atom('loc', d)
                v = m.call(f, made(P, cls, m, axes, (t, t), (limit,) * 2), [Ptr(loc), Ptr(out)])
                return [v, out.cell(0).v, out.cell(1).v]

            def want(p):
                v, s = Want(axes, (t, t), (limit,) * 2, p)()
                return [v] + s
            J.compare(f, NAMES[t] + (' limited' if limit else ''), points, body, want, ['value', 'slope along axis 0', 'slope along axis 1'], exact=False)
            R.count('interpolations')



def bicubic(P, R, J):
    cls = 'usml::types::data_grid_bathy'
    f = method(P, cls, 'interpolate', 2)
    if f is None:
        return
    rnd = random.Random(13)
    axes = [Axis(0, 5), Axis(1, 4)]
    types = (PCHIP, PCHIP)

    def evaluate(m, where, limit):
        loc, out = Arr(None, 2), Arr(None, 2)
        for d in range(2):
            loc.cell(d).v = where[d]
        v = m.call(f, made(P, cls, m, axes, types, (limit,) * 2), [Ptr(loc), Ptr(out)])
        return [v, out.cell(0).v, out.cell(1).v]
    tab = lambda i, j: fn('tab', 4 * i + j)
    points = [World(rnd, axes, even=True).point() for _ in range(4)]
    for i in range(5):
        for j in range(4):
            up, down = [[tab(min(max(i + a, 0), 4), min(max(j + b, 0), 3)) for a, b in ((k, 0), (0, k))] for k in (1, -1)]
            w = [tab(i, j)] + [div(sub(up[d], down[d]), mul(2, inc(d, 1))) for d in range(2)]
            J.compare(f, 'bicubic', points, lambda m: evaluate(m, [ax(0, i), ax(1, j)], (i + j) % 2 == 0), lambda p: w, ['value at a point of the table', 'slope along axis 0 at a point of the table', 'slope along axis 1 at a point of the table'],
                      exact=False, spec='the table')
    x = [atom('loc', 0), atom('loc', 1)]
    points = [World(rnd, axes, inside=True).point() for _ in range(24)]
    for i in range(4):
        for j in range(3):
            w = World(rnd, axes, even=True)
            w.loc = [v[k] + t * (v[k + 1] - v[k]) for v, k, t in zip(w.x, (i, j), (0.3, 0.6))]
            points.append(w.point())
    for limit in (True, False):
        def body(m):
            r = evaluate(m, x, limit)
            first = [slope(r[0], y, {}) for y in x]
            return r[1:] + first + [slope(first[0], x[1], {})]
        for r, s in cases(P, points, body, hook):
            R.count('partitions of the inputs')
            if isinstance(r, Exception):
                J.missing.setdefault(f'{f.short}: {r}', 'bicubic')
                continue
            for d in range(2):
                R.count('values compared')
                p = next((p for p in s.alive if all(w[0] < v < w[-1] or w[0] > v > w[-1] for v, w in zip(p.world.loc, p.world.x)) and not close(p(r[d]), p(r[d + 2]))), None)
                if p:
                    R.violation(f'{f.short}|bicubic|slope {d}', f'{f.short}: the slope along axis {d} is not the derivative of the value (bicubic): {p(r[d]):.5g} instead of {p(r[d + 2]):.5g}{describe(p)}', f.loc())
            for p in s.alive:
                R.count('values compared')
                bad = twisted(p, r[4])
                if bad:
                    R.violation(f'{f.short}|bicubic|mixed slope', f'{f.short}: the mixed slope at a point of the table is not the mixed difference of its neighbors (bicubic): {bad[0]:.5g} instead of {bad[1]:.5g}{describe(p)}', f.loc())
        R.count('interpolations')


def twisted(p, mixed):
    """The mixed slope at a corner of the interval, when it is not the one of the table; for evenly spaced axes."""
    w = p.world
    if any(max(a) - min(a) > 1e-9 for a in ([y - x for x, y in zip(v, v[1:])] for v in w.x)) or any(v in x or not min(x) < v < max(x) for v, x in zip(w.loc, w.x)):
        return None
    k = [w.find(d, w.loc[d]) for d in range(2)]
    h = [x[1] - x[0] for x in w.x]
    n = [len(x) for x in w.x]
    z = lambda i, j: w.tab(n[1] * min(max(i, 0), n[0] - 1) + min(max(j, 0), n[1] - 1))
    for a in (0, 1):
        for b in (0, 1):
            i, j = k[0] + a, k[1] + b
            q = at(p, {('loc', d): w.x[d][k[d]] + h[d] * (c + (0.5 - c) * 1e-7) for d, c in enumerate((a, b))})
            want = (z(i + 1, j + 1) - z(i + 1, j - 1) - z(i - 1, j + 1) + z(i - 1, j - 1)) / (4 * h[0] * h[1])
            got = q(mixed)
            if not abs(got - want) <= 1e-4 * (1 + abs(want)):
                return got, want
    return None


# -------------------------------------------------------------- sequences
class View:
    """Elements of a sequence, seen through its iterator."""
    shared = True

    def __init__(self, o):
        self.o = o


def seqhook(m, what, recv, info):
    r = val(recv)
    if what == 'ctor':
        nd, fr, c = info
        if 'const_iterator' in nd.get('cls', '') and 'reverse' not in nd['cls'] and len(c) == 2:
            a = m.v(fr, c[0])
            if isinstance(a, Obj):
                if not hasattr(a, 'view'):
                    a.view = View(a)
                return Ptr(a.view, m.v(fr, c[1]))
        return None
    if what == 'sub':
        if isinstance(r, View):
            d = r.o.f['_data'].v
            return m.at(d, info[0])
        return None
    nd, fr, c = info
    n = nd.get('q', '').split('::')[-1]
    if isinstance(r, Arr) and getattr(r, 'items', None) is not None:
        if n == 'upper_bound':
            v = m.v(fr, c[0])
            pair = Obj('pair')
            for x, cell in r.items:
                if m.tell(m.compare('<', v, x)) and (not pair.f or m.tell(m.compare('<', x, pair.f['first'].v))):
                    pair.cell('first').v, pair.cell('second').v = x, cell.v
            return (pair,)
    if isinstance(r, Obj) and r.cls == 'pair' and nd.get('op') in ('*', '->'):
        return (r,)
    if n == 'equal' and len(c) >= 3:
        raise Unsupported('std::equal')
    return None


def ctors(P, cls, like):
    """Constructors of cls with parameters of the given types."""
    r = []
    for g in P.fns.values():
        if g.cls == cls and g.kind == 'ctor' and g.entry is not None and [p['t'] for p in g.params] == list(like):
            r.append(g)
    return r


D, I, N, B = 'double', 'int', 'unsigned long', 'bool'


def point(**at):
    return Point({k.replace('_', ' '): v for k, v in at.items()}, {})


def values(o, n):
    d, i = o.f['_data'].v, o.f['_increment'].v
    return [d.size] + [d.cell(k).v for k in range(n)] + [i.cell(k).v for k in range(n)]


def expected(xs):
    n = len(xs)
    return [n] + list(xs) + [sub(xs[min(k + 1, n - 1)], xs[min(k, max(n - 2, 0))]) for k in range(n)]


def interval(xs, v):
    """Index of the interval of a list of numbers that contains v."""
    s = 1 if len(xs) < 2 or xs[1] > xs[0] else -1
    k = 0
    while k < len(xs) - 2 and v * s >= xs[k + 1] * s:
        k += 1
    return k


def sequences(P, R, J):
    rnd = random.Random(17)
    first, step, last, v = atom('first'), atom('step'), atom('last'), atom('v')
    base = 'usml::types::seq_vector'
    lookups = [method(P, base, n) for n in ('operator()', 'operator[]', 'increment', 'find_nearest', 'size')]

    def plans():
        for log in (False, True):
            cls = 'usml::types::seq_' + ('log' if log else 'linear')
            x = (lambda k: mul(first, power(step, k))) if log else (lambda k: add(first, mul(k, step)))
            sizes = (2, 3, 4, 5) if log else (1, 2, 3, 4, 5)
            starts = [(1.0, 2.0), (8.0, 0.5), (3.0, 1.5)] if log else [(0.5, 0.25), (-2.0, 1.5), (4.0, -0.5)]
            for types, how in (((D, D, I), 'count'), ((D, D, N), 'count'), ((D, D, N, B), 'step'), ((D, D, N, B), 'last'), ((D, D, D), 'end')):
                for g in ctors(P, cls, types):
                    for n in sizes:
                        if how == 'last' and n < 2:
                            continue
                        at = []
                        for a, h in starts:
                            xs = [a * h ** k if log else a + k * h for k in range(n)]
                            q = {'first': a, 'step': h, 'last': xs[-1]}
                            at.append((q, xs))
                            if how == 'end' and n > 1:      # an end a little beyond the last value, or just before it
                                at.append(({**q, 'last': xs[-1] * h ** 0.6 if log else xs[-1] + 0.6 * h}, xs))
                                at.append(({**q, 'last': xs[-1] * h ** -0.03 if log else xs[-1] - 0.05 * h}, xs))
                        if how == 'last':
                            st = div(sub(last, first), n - 1)
                            want = [add(first, mul(k, st)) for k in range(n)]
                            args = [first, last, n, True]
                        else:
                            want = [x(k) for k in range(n)]
                            args = [first, step] + {'count': [n], 'step': [n, False], 'end': [last]}[how]
                        yield cls, g, how, args, want, at
        for g in P.fns.values():
            if g.cls == 'usml::types::seq_data' and g.kind == 'ctor' and len(g.params) == 2 and g.entry is not None:
                for n in (1, 2, 3, 4, 5):
                    a = Arr(None, n)
                    want = [atom('x', k) for k in range(n)]
                    for k in range(n):
                        a.cell(k).v = want[k]
                    at = []
                    for s in (1, -1):
                        xs = [rnd.uniform(-2, 2)]
                        while len(xs) < n:
                            xs.append(xs[-1] + s * rnd.uniform(0.3, 2))
                        at.append(({('x', k): y for k, y in enumerate(xs)}, xs))
                    yield g.cls, g, 'data', [Ptr(a) if g.params[0]['t'].rstrip().endswith('*') else a, n], want, at

        for g in ctors(P, 'usml::types::seq_rayfan', (D, D, N, D, D)):
            for n in (3, 4, 5):
                a, b, mid, wide = atom('first'), atom('last'), atom('center'), atom('spread')
                at = []
                for x0, x1, c, w in ((-40.0, 50.0, 0.0, 6.0), (10.0, -30.0, 5.0, 2.5)):
                    lo, hi = min(x0, x1), max(x0, x1)
                    ang = [math.atan((y - c) / w) for y in (lo, hi)]
                    at.append(({'first': x0, 'last': x1, 'center': c, 'spread': w}, [c + w * math.tan(ang[0] + k * (ang[1] - ang[0]) / (n - 1)) for k in range(n)]))
                yield g.cls, g, 'fan', [a, b, n, mid, wide], None, at
    for cls, g, how, args, want, at in plans():
        if want is None:
            n = args[2]
            what = f'{n} values of a fan'

            def fan(m):
                o = Obj(cls)
                m.call(g, o, list(args))
                return values(o, n)
            points = []
            for q, xs in at:
                p = Point(dict(q), {})
                p.want = [n] + [norm(y) for y in xs] + [norm(xs[min(k + 1, n - 1)] - xs[min(k, n - 2)]) for k in range(n)]
                points.append(p)
            J.compare(g, what, points, fan, lambda p: p.want, ['number of values'] + [f'value {k}' for k in range(n)] + [f'increment {k}' for k in range(n)], hook=seqhook, spec='the arguments', exact=False)
            R.count('sequences')
            continue
        n = len(want)
        R.count('sequences')
        what = f'{n} values from {how}'

        def made(m):
            o = Obj(cls)
            m.call(g, o, list(args))
            return o
        want_ = expected(want)
        if n == 1:
            want_[-1] = step if cls.endswith('linear') and how != 'last' else SKIP
        names = ['number of values'] + [f'value {k}' for k in range(n)] + [f'increment {k}' for k in range(n)]
        points = [Point(dict(q), {}) for q, xs in at]
        J.compare(g, what, points, lambda m: values(made(m), n), lambda p: want_, names, hook=seqhook, spec='the arguments')
        f = method(P, cls, 'find_index', 1)
        if f is None:
            continue
        points = []
        for q, xs in at:
            s = xs[1] - xs[0] if n > 1 else 1
            if cls.endswith('log'):
                h = q['step']
                vs = [xs[0] * h ** -0.3, xs[0] * h ** -2.4, xs[-1] * h ** 0.3, xs[-1] * h ** 1.7]
            else:
                vs = [xs[0] - 0.7 * s, xs[-1] + 0.8 * s, xs[-1] + 3 * s, xs[0] - 4 * s]
            vs += [a + t * (b - a) for a, b in zip(xs, xs[1:]) for t in (0.1, 0.3, 0.7, 0.95)]
            if not cls.endswith('log'):
                vs += xs
            for y in vs:
                p = Point({**q, 'v': y}, {})
                p.k = interval(xs, y)
                p.near = min(range(n), key=lambda k: (abs(xs[k] - y), -k))
                points.append(p)
        J.compare(f, what, points, lambda m: [m.call(f, made(m), [v])], lambda p: [p.k], ['index'], hook=seqhook, spec='the interval that contains the value')
        call, sub_, incr, near, count = lookups
        if near and how in ('count', 'data'):
            apart = [p for p in points if not any(abs(abs(a - p.atoms['v']) - abs(b - p.atoms['v'])) < 1e-9 for q, xs in at for a, b in zip(xs, xs[1:]))]
            J.compare(near, f'{cls.split("_")[-1]} {what}', apart, lambda m: [m.call(near, made(m), [v])], lambda p: [p.near], ['index'], hook=seqhook, spec='the nearest value')
        if call and incr and count and how in ('count', 'data'):
            for k in range(n + 2):
                j = min(k, n - 1)
                points1 = [Point(dict(q), {}) for q, xs in at]
                J.compare(call, what, points1, lambda m: [m.call(call, made(m), [k])], lambda p: [want_[1 + j]], ['value'], hook=seqhook, spec='the index')
                J.compare(incr, what, points1, lambda m: [m.call(incr, made(m), [k])], lambda p: [want_[1 + n + j]], ['increment'], hook=seqhook, spec='the index')
                if sub_ and k < n:
                    J.compare(sub_, what, points1, lambda m: [m.call(sub_, made(m), [k])], lambda p: [want_[1 + j]], ['value'], hook=seqhook, spec='the index')
            J.compare(count, what, points1, lambda m: [m.call(count, made(m), [])], lambda p: [n], ['number of values'], hook=seqhook, spec='the sequence')
    for g in P.fns.values():
        if g.cls == 'usml::types::seq_data' and g.kind == 'ctor' and len(g.params) == 2 and g.entry is not None:
            for xs in ([1.0, 1.0, 2.0], [1.0, 2.0, 2.0], [3.0, 1.0, 1.0], [1.0, 2.0, 1.5], [1.0, 3.0, 4.0, 2.0], [2.0, 1.0, 5.0], [1.0, 2.0, 4.0, 4.0], [4.0, 3.0, 1.0, 2.0]):
                n = len(xs)

                def body(m):
                    a = Arr(None, n)
                    for k in range(n):
                        a.cell(k).v = atom('x', k)
                    m.call(g, Obj(g.cls), [Ptr(a) if g.params[0]['t'].rstrip().endswith('*') else a, n])
                for r, s in cases(P, [Point({('x', k): y for k, y in enumerate(xs)}, {})], body, seqhook):
                    R.count('partitions of the inputs')
                    if isinstance(r, Exception) and not isinstance(r, Thrown):
                        J.missing.setdefault(f'{g.short}: {r}', 'not monotonic')
                    elif not isinstance(r, Thrown):
                        R.violation(f'{g.short}|not monotonic', f'{g.short}: values that do not rise or fall throughout are accepted: {xs}', g.loc())
    best(P, R, J)


def power(x, k):
    r = 1
    for _ in range(k):
        r = mul(r, x)
    return r


def best(P, R, J):
    base = 'usml::types::seq_vector'
    shapes = [[2.0], [1.0, 3.0], [3.0, 1.0], [1.0, 2.0, 3.0, 4.0], [5.0, 3.5, 2.0], [1.0, 2.0, 4.0, 8.0], [27.0, 9.0, 3.0], [1.0, 2.0, 5.0, 6.0], [9.0, 4.0, 3.0, -2.0], [-1.0, 0.0, 1.0, 2.0],
              [1.0, 2.0, 3.0, 5.0], [2.0, 4.0, 8.0, 12.0], [0.0, 1.0, 2.0, 4.0], [-1.0, 0.0, 5.0, 10.0], [-1.0, 0.0, 4.0], [-4.0, -2.0, 0.0], [1.0, 2.0, 4.0, 8.0, 20.0], [1.0, 2.0, 3.0, 4.0, 5.5], [7.0, 4.0, 2.0, 1.0, -3.0]]
    for f in P.fns.values():
        if f.cls != base or f.q.split('::')[-1] != 'build_best' or f.entry is None:
            continue
        for xs in shapes:
            n = len(xs)
            p = Point({('x', k): y for k, y in enumerate(xs)}, {})
            want = expected([atom('x', k) for k in range(n)])
            if n == 1:
                want[-1] = SKIP

            def body(m):
                a = Arr(None, n)
                for k in range(n):
                    a.cell(k).v = atom('x', k)
                o = m.call(f, None, [Ptr(a), n] if len(f.params) == 2 else [a])
                return values(o, n)
            names = ['number of values'] + [f'value {k}' for k in range(n)] + [f'increment {k}' for k in range(n)]
            J.compare(f, f'values {xs}', [p], body, lambda p: want, names, hook=seqhook, spec='the data', exact=False)
            R.count('sequences')
    f = method(P, base, 'clip', 2)
    g = next((g for g in P.fns.values() if g.cls == 'usml::types::seq_data' and g.kind == 'ctor' and len(g.params) == 2 and g.entry is not None), None)
    for xs in shapes[1:] if f and g else ():
        for lo, hi in ((min(xs), max(xs)), (min(xs) + 0.1, max(xs) + 1), (min(xs) - 1, max(xs) - 0.1)):
            keep = [k for k, y in enumerate(xs) if lo <= y <= hi]
            if not keep:
                continue
            p = Point({**{('x', k): y for k, y in enumerate(xs)}, 'lo': lo, 'hi': hi}, {})
            want = expected([atom('x', k) for k in keep])
            if len(keep) == 1:
                want[-1] = SKIP

            def body(m):
                o, a = Obj(g.cls), Arr(None, len(xs))
                for k in range(len(xs)):
                    a.cell(k).v = atom('x', k)
                m.call(g, o, [Ptr(a) if g.params[0]['t'].rstrip().endswith('*') else a, len(xs)])
                return values(m.call(f, o, [atom('lo'), atom('hi')]), len(keep))
            n = len(keep)
            names = ['number of values'] + [f'value {k}' for k in range(n)] + [f'increment {k}' for k in range(n)]
            J.compare(f, f'{xs} from {lo} to {hi}', [p], body, lambda p: want, names, hook=seqhook, spec='the values inside', exact=False)
            R.count('sequences')


def run(P):
    R = Result()
    R.rule = RULE
    J = Judge(P, R)
    J.missing = {}
    for part in (sequences, settings, many, rules, interpolation, fast, bicubic):
        part(P, R, J)
    R.samples += [f'not judged: {k} ({v})' for k, v in list(J.missing.items())[:20]]
    R.count('not judged', len(J.missing))
    R.need(R.counts['interpolations'], 20, 'interpolations of grids')
    R.need(R.counts['sequences'], 20, 'constructors of sequences')
    return R
