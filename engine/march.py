"""The marching of the wavefront: integrator weights as exact rational linear
forms, and the time level of every wavefront object along a root function."""
from fractions import Fraction
from symterm import Sym, walk
from cfgutil import name

LEVEL = {'_past': -2, '_prev': -1, '_curr': 0, '_next': 1}
COMPS = ('rho', 'theta', 'phi')
GRAD = {'position': 'pos_gradient', 'ndirection': 'ndir_gradient'}


# ------------------------------------------------------------- linear forms
def madd(a, b, k=1):
    r = dict(a)
    for x, v in b.items():
        r[x] = r.get(x, 0) + k * v
    return {x: v for x, v in r.items() if v}


def lin(t, atom, dt):
    """Term as {(atom, power of dt): coefficient}; None when it is not linear."""
    k = t[0]
    if t == dt:
        return {(None, 1): Fraction(1)}
    a = atom(t)
    if a is not None:
        return a
    if k == 'num' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return {(None, 0): Fraction(t[1]).limit_denominator(10**9)} if t[1] else {}
    if k == 'add':
        x = lin(t[1], atom, dt)
        return None if x is None else madd(x, {(None, 0): Fraction(t[2])})
    if k == 'op':
        if t[1] == 'neg':
            x = lin(t[2], atom, dt)
            return None if x is None else madd({}, x, -1)
        if len(t) != 4:
            return None
        x, y = lin(t[2], atom, dt), lin(t[3], atom, dt)
        if x is None or y is None:
            return None
        if t[1] == '+':
            return madd(x, y)
        if t[1] == '-':
            return madd(x, y, -1)
        if t[1] == '*':
            if any(a[0] is not None for a in x) and any(a[0] is not None for a in y):
                return None
            r = {}
            for (a, p), v in x.items():
                for (b, q), w in y.items():
                    r = madd(r, {(a if a is not None else b, p + q): v * w})
            return r
        if t[1] == '/' and set(y) == {(None, 0)}:
            return {a: v / y[(None, 0)] for a, v in x.items()}
    return None


def place(t):
    """Location behind a value, also after it has been modified in place."""
    n = 0
    while t[0] == 'sym' and isinstance(t[1], tuple) and t[1] and t[1][0] in ('mod', 'alias') and n < 9:
        t = t[1][3]
        n += 1
    return t


def field(t):
    """(object, field) of a value that is a member of a wavefront."""
    t = place(t)
    if t[0] == 'mem':
        return place(t[1]), t[2]
    return None


def is_front(t):
    return 'wave_front' in t and '<' not in t


def objof(s, i):
    """Identity of the wavefront that node i (pointer, reference or object) denotes."""
    f = s.fn
    t = f.nodes[i].get('t', '')
    if t.rstrip().removesuffix('const').rstrip().endswith('*'):
        v = s.deref(s.v(i), i)
        return place(v)
    l = s.lv(i)
    return place(l)


class Integrator:
    """Weights of one integration function."""

    def __init__(self, P, f):
        self.P, self.fn = P, f
        ps = f.params
        dts = [k for k, p in enumerate(ps) if p['t'].split()[-1] == 'double']
        self.args = [k for k, p in enumerate(ps) if is_front(p['t'])]
        self.flag = next((k for k, p in enumerate(ps) if p['t'].split()[-1] == 'bool'), None)
        self.dtarg = dts[0] if dts else None
        self.dt = ('loc', (ps[dts[0]]['d'],)) if dts else None
        self.ys = [('loc', (ps[k]['d'],)) for k in self.args]
        self.env = {}
        self.bad = []
        self.unknown = False
        if not dts or len(self.ys) < 2:
            return
        Sym(P, f, inline=lambda g: g.cls == f.cls or 'lambda' in g.kind or g.r.get('lambdaOf') or g.r.get('file') == f.r.get('file') and not g.cls, hook=self.hook)

    def atom(self, t):
        if t[0] == 'call' and t[1] in COMPS and len(t) == 3:
            fl = field(t[2])
            if fl:
                k = (fl[0], fl[1], t[1])
                return dict(self.env[k]) if k in self.env else {(k, 0): Fraction(1)}
        return None

    def hook(self, s, i, nd):
        n = name(nd)
        if n in COMPS and nd.get('c') and nd.get('recv', -1) >= 0:
            r = s.lv(nd['recv'])
            fl = field(r)
            if fl and fl[1] in GRAD:
                x = lin(s.v(nd['c'][0]), self.atom, self.dt)
                if x is None:
                    self.unknown = True
                    return
                # writing through an expression that reads the same storage
                na = s.v(nd['c'][1]) if len(nd['c']) > 1 else ('num', True)
                self.env[(fl[0], fl[1], n)] = x

    def weights(self):
        """{(kind, comp): (out index, base index, (weights))} or error texts."""
        out = {}
        for (o, f, c), form in self.env.items():
            if o not in self.ys:
                continue
            base, w = None, [Fraction(0)] * len(self.ys)
            for (a, p), v in form.items():
                if a is None or a[0] not in self.ys:
                    self.bad.append((f, c, 'depends on something else than the wavefronts'))
                    continue
                if a[2] != c:
                    self.bad.append((f, c, f'is computed from the {a[2]} component'))
                elif a[1] == f and p == 0:
                    if v != 1:
                        self.bad.append((f, c, f'starts from {v} times the old value'))
                    if base is not None:
                        self.bad.append((f, c, 'starts from two wavefronts'))
                    base = self.ys.index(a[0])
                elif a[1] == GRAD[f] and p == 1:
                    w[self.ys.index(a[0])] += v
                else:
                    self.bad.append((f, c, f'uses {a[1]} with power {p} of the time step'))
            out[(f, c)] = (self.ys.index(o), base, tuple(w))
        return out


def stage(ws, base, out):
    """Which part of which scheme a formula is, by the wavefronts it uses."""
    n = len(ws) - 1
    if out != n:
        return None
    if n == 3 and base == 2:
        return 'ab3'
    return {1: 'rk1', 2: 'rk2', 3: 'rk3'}.get(n) if base == 0 else None


def is_integ(g):
    return bool(g.cls) and g.cls.endswith('waveq3d::ode_integ')


def composed(P, g):
    """Functions that only call integration formulas."""
    return is_integ(g) and any(is_integ(t) for i, nd in g.calls() for t in P.targets(nd) if t is not g)


def formulas(P, f, cache={}):
    """{kind: stage} of an integration function, with its analysis."""
    k = (id(P), f.u)
    if k not in cache:
        I = Integrator(P, f)
        out = {}
        for (fld, c), (o, base, ws) in I.weights().items():
            out.setdefault({'position': 'pos', 'ndirection': 'dir'}[fld], set()).add(stage(ws, base, o))
        cache[k] = I, {x: next(iter(v)) for x, v in out.items() if len(v) == 1 and None not in v}
    return cache[k]


# --------------------------------------------------------------- time levels
def signed(t):
    """(atom, sign) of a time step."""
    if t[0] == 'op' and t[1] == 'neg':
        a, s = signed(t[2])
        return a, -s
    if t[0] == 'op' and t[1] == '*':
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if x[0] == 'num' and x[1] in (1, -1, 1.0, -1.0):
                a, s = signed(y)
                return a, s * int(x[1])
    if t[0] == 'op' and t[1] == '-' and t[2] == ('num', 0):
        a, s = signed(t[3])
        return a, -s
    return t, 1


def shift(L, dt, k=1):
    base, d = L
    a, s = dt
    d = dict(d)
    d[a] = d.get(a, 0) + s * k
    return (base, tuple(sorted((x for x in d.items() if x[1]), key=repr)))


def level(c):
    return c[1] if c and c[0] == 'L' else None


class Front:
    def __init__(self, pos=None, dir=None, grad=None):
        self.pos, self.dir, self.grad = pos, dir, grad
        self.comp = {}                # components set one by one


class March:
    """Runs one root function with its helpers in place and types every
    wavefront object with the time its position, direction and derivatives
    belong to."""

    def __init__(self, P, root, helper, seeds=None, fronts=None, watch=None):
        self.P, self.root = P, root
        self.fronts = dict(fronts or {})
        self.errors = []              # (key, message, sym, node)
        self.log = []                 # ('integ'|'update'|'init'|'copy'|'store'|'call', sym, node, data)
        self.watch = watch
        self.sym = Sym(P, root, state=seeds, inline=helper, hook=self.hook, onstore=self.onstore, frozen=seeds, ident=('wave_front',))

    def front(self, o):
        return self.fronts.setdefault(o, Front())

    def err(self, key, msg, s, i):
        self.errors.append((key, msg, s, i))

    def show(self, o):
        t = o
        if t[0] == 'sym' and isinstance(t[1], str):
            return t[1]
        if t[0] == 'loc':
            f, d = self.owner(t)
            return d
        return t[2] if t[0] == 'mem' else 'a wavefront'

    def owner(self, t):
        s = self.now
        while s is not None and s.tag != t[1][:-1]:
            s = s.up
        v = s.fn.locals.get(t[1][-1]) if s else None
        return s, v['n'] if v else 'a wavefront'

    def hook(self, s, i, nd):
        self.now = s
        q, n = nd.get('q', ''), name(nd)
        c, r = nd.get('c', []), nd.get('recv', -1)
        if '::ode_integ::' in q:
            for g in self.P.targets(nd)[:1]:
                I, kinds = formulas(self.P, g)
                for kind, st in kinds.items():
                    self.integ(s, i, nd, n, kind, st, I)
        elif q.endswith('wave_front::update'):
            o = objof(s, r)
            f = self.front(o)
            self.comps(f, o)
            if f.pos != f.dir:
                self.err(f'half|{n}', f'updates {self.show(o)} although its position and direction belong to different times', s, i)
            f.grad = f.pos if f.pos == f.dir else None
            self.log.append(('update', s, i, o))
        elif q.endswith('wave_front::init_wave'):
            o = objof(s, r)
            f = self.front(o)
            f.pos = f.dir = ('L', (('init', s.tag + (i,)), ()))
            f.grad = None
            self.log.append(('init', s, i, o))
        elif n in COMPS and r >= 0 and c and nd.get('t') == 'void':
            fl = field(s.lv(r))
            if fl:
                v = s.v(c[-1]) if len(c) == 3 else s.v(c[0])
                idx = tuple(s.v(x) for x in c[:2]) if len(c) == 3 else ()
                self.log.append(('copy', s, i, (fl[0], fl[1], n, idx, v, self.source(v))))
                f = self.front(fl[0])
                if fl[1] in GRAD:
                    f.comp.setdefault(fl[1], {})[n] = v
        else:
            self.log.append(('call', s, i, nd, {k: self.together(s, k) for k in LEVEL}))

    def comps(self, f, o):
        """Position or direction filled component by component."""
        for fld in list(f.comp):
            if set(f.comp[fld]) == set(COMPS):
                c = ('L', (('set', o), ()))
                if fld == 'position':
                    f.pos = c
                else:
                    f.dir = c
            else:
                self.err(f'comps|{fld}', f'sets only {", ".join(sorted(f.comp[fld]))} of the {fld} of {self.show(o)}', self.sym, -1)
            del f.comp[fld]

    def integ(self, s, i, nd, n, kind, step, I):
        c = nd['c']
        ys = [objof(s, c[k]) for k in I.args]
        dt = signed(s.v(c[I.dtarg]))
        what = 'position' if kind == 'pos' else 'direction'
        na = s.v(c[I.flag]) if I.flag is not None and I.flag < len(c) else ('num', True)
        fs = [self.front(y) for y in ys]
        out = fs[-1]
        self.log.append(('integ', s, i, (n, dt, ys)))
        e = lambda k, m: self.err(f'{k}|{n}', m, s, i)
        for y, f in zip(ys[:-1], fs[:-1]):
            if f.grad is None:
                e('stale', f'integrates the {what} with {self.show(y)}, whose derivatives have not been computed')
                setattr(out, kind, None)
                return
        if ys[-1] in ys[:-1]:
            if na != ('num', False):
                e('alias', f'overwrites {self.show(ys[-1])} while integrating it')
            if ys[-1] == ys[0] and step != 'ab3':
                e('inplace', f'integrates {self.show(ys[0])} into itself')
        g = [f.grad for f in fs[:-1]]
        base = fs[2] if step == 'ab3' else fs[0]
        L = level(getattr(base, kind))
        if L is None or level(base.grad) != L:
            e('base', f'integrates the {what} from {self.show(ys[2 if step == "ab3" else 0])}, which is only partly computed')
            setattr(out, kind, None)
            return
        if step == 'rk1':
            new = ('s1', L, dt)
        elif step == 'rk2':
            if g[1] != ('s1', L, dt):
                e('stage', f'takes {self.show(ys[1])} as the first estimate, it is not that of {self.show(ys[0])} with this time step')
            new = ('s2', L, dt)
        elif step == 'rk3':
            if g[1] != ('s1', L, dt):
                e('stage', f'takes {self.show(ys[1])} as the first estimate, it is not that of {self.show(ys[0])} with this time step')
            if g[2] != ('s2', L, dt):
                e('stage', f'takes {self.show(ys[2])} as the second estimate, it is not that of {self.show(ys[0])} with this time step')
            new = ('L', shift(L, dt))
        else:
            for k, y in ((0, -2), (1, -1)):
                if level(g[k]) != shift(L, dt, y):
                    e('order', f'takes {self.show(ys[k])} as the wavefront {-y} step{"s" if y < -1 else ""} before {self.show(ys[2])}, it is not')
            new = ('L', shift(L, dt))
        setattr(out, kind, new)

    def onstore(self, s, l, v):
        self.log.append(('store', s, s.cur, (l, v, self.source(v))))

    def together(self, s, n):
        """Level of the wavefront in queue place n when all of it belongs to one time."""
        o = s.st.get(('mem', ('this',), n))
        f = self.fronts.get(place(o)) if o else None
        return level(f.pos) if f and f.pos == f.dir == f.grad else None

    def source(self, v):
        """(wavefront, member, component, index, state) a copied value comes from."""
        if v[0] == 'op' and v[1] in ('+',) and len(v) == 4:
            a, b = self.source(v[2]), self.source(v[3])
            seeds = lambda x: x and x[0][0] == 'sym' and x[0][1] in LEVEL
            return b if seeds(a) and b and not seeds(b) else a if seeds(b) and a and not seeds(a) else None
        c, idx = None, None
        if v[0] == 'call' and v[1] in COMPS and len(v) in (3, 5):
            c, idx, v = v[1], v[3:], v[2]
        elif v[0] == 'idx':
            idx, v = v[2], v[1]
        fl = field(v)
        if fl is None or idx is None:
            return None
        fr = self.fronts.get(fl[0])
        return fl[0], fl[1], c, idx, Front(fr.pos, fr.dir, fr.grad) if fr else None

    def calls(self, pred):
        for e in self.log:
            if e[0] == 'call' and pred(e[3]):
                yield e[0], e[1], e[2], e[4]
