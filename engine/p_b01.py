"""B01: beam patterns have the documented shape and directivity."""
import math
import random
import algebra as A
from algebra import *
from cfgutil import name
from models import OSym, family, short, leaf as mleaf
from p_t01 import Strict, THIS, RAD
from p_w04 import attempt
from result import Result

RULE = ('the level and the directivity of each beam pattern are reduced, for each kind of pattern that can be constructed and on both sides of a baffle, to an exact normal form '
        'of the direction, the steering, the frequency, the sound speed and the arguments of the constructor, which must be identical to the documented formula; '
        'no path may read what the output contained before')
AXIS = ('front', 'right', 'up')
FREQ, SPEED = var(('freq',)), var(('speed',))
ONE, TWO, HALF = num(1), num(2), num(1) / num(2)
PIE = var(PI)
TRUE, FALSE = ('num', True), ('num', False)
PLAIN = ('vector', 'vector_range', 'vector_expression')


def arr(k):
    return var(('arrival', k))


def ste(k):
    return var(('steering', k))


def arg(k):
    return var(('arg', k))


def f_(n, *a):
    return A.fn(n, *a)


class BSym(OSym):
    """One frequency; conditions that a case decides are decided."""
    case = None

    def copy_to(self, sub):
        super().copy_to(sub)
        sub.case = self.case

    def __init__(self, P, f, case=None, **kw):
        self.case = case or {}
        super().__init__(P, f, pointwise=True, inline=self.inliner(P, f), **kw)

    def inliner(self, P, f):
        return inliner(P, f)

    def elementwise(self, r):
        t = self.fn.nodes[r].get('t', '')
        return 'c_vector' not in t and 'c_matrix' not in t and 'std::vector' not in t and super().elementwise(r)

    def _lv(self, i):
        nd = self.fn.nodes[i]
        if nd['k'] == 'call' and nd.get('op') in ('[]', '()') and nd.get('recv', -1) >= 0 and self.elementwise(nd['recv']):
            ix = tuple(self.v(x) for x in nd.get('c', []))
            b = self.lv(nd['recv'])
            if ix and all(self.literal(x) for x in nd['c']):
                return ('idx', b, ix)
            if b[0] == 'loc' and b[1][0] == 'obj' and len(ix) == 1:
                self.top().entries.add(ix[0])
            return b
        return super()._lv(i)

    def literal(self, x):
        while self.fn.nodes[x]['k'] == 'cast' and self.fn.nodes[x].get('c'):
            x = self.fn.nodes[x]['c'][0]
        return self.fn.nodes[x]['k'] == 'lit'

    def top(self):
        s = self
        while s.up is not None:
            s = s.up
        if not hasattr(s, 'entries'):
            s.entries = set()
        return s

    def dead_edges(self, b):
        return set() if b in self.heads else super().dead_edges(b)

    def const(self, t):
        v = super().const(t)
        if v is not None:
            return v
        if t[0] == 'op' and len(t) == 4:
            o, a, b = t[1:]
            if o in ('&&', '||'):
                x, y = self.const(a), self.const(b)
                if o == '&&':
                    return False if x is False or y is False else True if x and y else None
                return True if x or y else False if x is False and y is False else None
            if o in ('==', '!=') and a[0] == b[0] == 'glob':
                return (a[1].split('::')[-1] == b[1].split('::')[-1]) == (o == '==')
            if o in ('<', '<=', '>', '>=', '==', '!='):
                x, y = self.number(a), self.number(b)
                if x is not None and y is not None:
                    return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[o]
        return None

    def meaning(self):
        return reading(self, None)

    def number(self, t):
        """Value of t for the representative of the case."""
        try:
            fs = forms(self, [t], self.meaning(), Decided)
            if len(fs) != 1:
                return None
            y = fs[0][1][0]
            env = dict(self.case)
            if any(a not in env and a[0] != 'fn' and a != PI for a in y.atoms(True)):
                return None
            return value(y, env)
        except (TooBig, Unknown, ValueError, ZeroDivisionError, OverflowError):
            return None


class Decided(Reader):
    def pick(self, key, options, cond):
        if cond is not None and key not in self.choice:
            v = self.s.const(cond)
            if v is not None:
                return options[0 if v else 1]
        return super().pick(key, options, cond)


def inliner(P, f):
    fam = family(P, f)

    def inline(g):
        return fam(g) or g is not f and g.q.startswith('usml::beampatterns') and g.n not in ('beam_level', 'directivity') and g.kind not in ('ctor', 'dtor') and not g.virt if hasattr(g, 'virt') else fam(g)
    return inline


def reading(s, prior):
    """Meaning of the terms of one evaluation."""
    top = s
    while top.up is not None:
        top = top.up
    f = top.fn
    vecs = [('loc', (p['d'],)) for p in f.params if 'bvector' in p['t']]
    names = dict(zip(vecs, ('arrival', 'steering') if len(vecs) == 2 else ('steering',)))
    freq = next((('loc', (p['d'],)) for p in f.params if 'seq_vector' in p['t']), None)
    speed = [('loc', (p['d'],)) for p in f.params if p['t'].replace('const ', '').rstrip('& ') == 'double']
    out = next((('loc', ('obj', p['d'])) for p in f.params if p['t'].rstrip().endswith('*')), None)

    def leaf(r, t):
        k = t[0]
        if t == out:
            if prior is not None:
                prior.append(t)
            return var(('prior',))
        if k == 'loc' and speed and t == speed[-1]:
            return SPEED
        if k == 'arg':
            return var(t)
        if k == 'glob' and t[1].split('::')[-1] in ('M_PI_2', 'TWO_PI'):
            return PIE * (HALF if t[1].endswith('2') else TWO)
        if k in ('call', 'idx') and len(t) > 2:
            b = strip(t[2] if k == 'call' else t[1])
            if b == freq and (k == 'idx' or t[1] in ('operator()', 'operator[]', 'at')):
                i = t[2][0] if k == 'idx' else t[3]
                return FREQ if i[0] != 'num' and (i in top.top().entries or not top.top().entries) else var(('freq', i))
        if k == 'call' and t[1] == 'data' and len(t) == 3 and strip(t[2]) == freq:
            return FREQ
        if k == 'idx' and t[1][0] == 'mem' and t[1][2] == '_vector' and len(t[2]) == 1 and t[2][0][0] == 'num':
            b, j = strip(t[1][1]), t[2][0][1]
            if b in names:
                return var((names[b], j))
            if b[0] == 'new' and b[1].endswith('bvector') and len(b) == 5:
                return r(b[2 + j])
        if k == 'new':
            n = short(t[1])
            if n == 'vector' and len(t) == 4:
                return r(t[3])
            if n == 'zero_vector':
                return num(0)
            if n == 'complex':
                return r(t[2]) + var(('i',)) * (r(t[3]) if len(t) > 3 else num(0)) if len(t) > 2 and isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], str) else num(0)
        if k == 'call' and t[1] == 'norm' and len(t) == 3:
            y = f_('abs', r(t[2]))
            return y * y
        if k == 'call' and t[1] == 'sum' and len(t) == 3:
            return f_('sum', r(t[2]))
        if k == 'call' and t[1] == 'cyl_bessel_j':
            return f_('cyl_bessel_j', r(t[2]), r(t[3]))
        if k == 'call' and t[1] == 'remainder' and len(t) == 4:
            return f_('remainder', r(t[2]), r(t[3]))
        if k == 'idx' and t[1][0] == 'new' and short(t[1][1]) == 'matrix_row' and len(t[2]) == 1 and len(t[1]) == 4:
            return var(('row', t[1][2], t[2][0]))
        if k == 'phi' and t in s.phi and not isinstance(t[2][0], list):
            y = added(s, r, t)
            if y is not None:
                return y
        return mleaf(r, t)
    return leaf


def strip(t):
    while t[0] in ('&', 'deref') or t[0] == 'call' and t[1] in ('operator*', 'operator->', 'get') and len(t) == 3:
        t = t[1] if t[0] != 'call' else t[2]
    return t


def added(s, r, t):
    """A scalar to which a loop over elements adds."""
    h = t[1][-1]
    if h not in s.heads or t[2][0] != 'loc':
        return None
    v = s.fn.locals.get(t[2][1][-1])
    if not v or 'complex' not in v['t']:
        return None
    back = {x for p, x in s.phi[t].items() if (p, h) in s.back}
    first = {x for p, x in s.phi[t].items() if (p, h) not in s.back}
    if len(back) != 1 or len(first) != 1:
        return None
    y = back.pop()
    if y[0] == 'op' and y[1] == '+' and t in y[2:]:
        step = y[3] if y[2] == t else y[2]
        return f_('sum', r(step)) + r(first.pop())
    return None


# ----------------------------------------------------------------- formulas
def deg(y):
    return y / RAD


def line(n, d, diff):
    x = PIE * d * FREQ / SPEED * diff
    y = A.sin(n * x) / (n * A.sin(x))
    return y * y


def turn(a, b):
    """Azimuth of a relative to b in degrees."""
    d = deg(f_('atan2', a[1], a[0]) - f_('atan2', b[1], b[0]))
    return f_('abs', f_('remainder', d, num(360)))


def climb(a, b):
    return f_('abs', deg(f_('asin', a[2]) - f_('asin', b[2])))


def arrival():
    return [arr(k) for k in range(3)]


def steering():
    return [ste(k) for k in range(3)]


def sphere(rnd):
    u = [rnd.gauss(0, 1) for _ in range(3)]
    n = math.sqrt(sum(x * x for x in u))
    return [x / n for x in u]


def sample(seed, **fixed):
    """Directions of length one and positive quantities."""
    rnd = random.Random(seed)
    env = {'seed': seed}
    for n in ('arrival', 'steering'):
        for k, x in enumerate(sphere(rnd)):
            env[(n, k)] = x
    env[('freq',)] = rnd.uniform(300, 3000)
    env[('speed',)] = rnd.uniform(1400, 1600)
    for k in range(5):
        env[('arg', k)] = rnd.uniform(0.2, 3.0)
    for k, (lo, hi) in fixed.items():
        env[('arg', int(k[1:]))] = rnd.uniform(lo, hi)
    return env


def front(env, sign):
    env[('arrival', 0)] = sign * abs(env[('arrival', 0)])
    return env


class Case:
    """Arguments of the constructor, what holds for the directions, and the formula."""

    def __init__(self, what, args, want, env=None):
        self.what, self.args, self.want = what, args, want
        self.env = env or (lambda seed: sample(seed))


def enum(n):
    return ('glob', n)


def baffled(k, want):
    yield Case('no baffle', {k: FALSE}, want)
    yield Case('in front of a baffle', {k: TRUE}, want, lambda s: front(sample(s), 1))
    yield Case('behind a baffle', {k: TRUE}, num(0), lambda s: front(sample(s), -1))


def cardioid(f):
    y = (ONE + arg(0) * arr(0)) / (ONE + arg(0))
    yield Case('', {}, y * y)


def trig(f):
    null = f_('pow', num(10), num(0) - f_('abs', arg(1)) / num(20))
    for n, k in (('sine', 1), ('cosine', 0)):
        yield Case(n, {0: enum(n)}, null + (ONE - null) * arr(k) * arr(k))


def gauss(f):
    for wide, deep in ((0, 0), (0, 1), (1, 0), (1, 1)):
        e = num(0)
        if not deep:
            x = climb(arrival(), steering()) / arg(0)
            e = e + x * x
        if not wide:
            x = turn(arrival(), steering()) / arg(1)
            e = e + x * x
        ranges = {'a0': (190, 300) if deep else (5, 170), 'a1': (370, 500) if wide else (5, 350)}
        yield Case(f'{"any" if deep else "limited"} elevation and {"any" if wide else "limited"} azimuth', {}, f_('exp', num(0) - e / TWO), lambda s, ranges=ranges: sample(s, **ranges))


def solid(f):
    for seed in range(60):
        env = sample(seed, a0=(20, 170), a1=(40, 350))
        v = lambda y: value(y, dict(env))
        inside = v(climb(arrival(), steering())) <= v(arg(0)) / 2 and v(turn(arrival(), steering())) <= v(arg(1)) / 2
        yield Case('inside' if inside else 'outside', {}, num(1 if inside else 0), lambda s, env=env: dict(env))


def lines(f):
    for n, k in (('HLA', 0), ('VLA', 2)):
        yield Case(n, {2: enum(n)}, line(arg(0), arg(1), arr(k) - ste(k)))


def planar(f):
    y = line(arg(0), arg(1), arr(2) - ste(2)) * line(arg(2), arg(3), arr(1) - ste(1))
    yield from baffled(4, y)


def piston(f):
    x = PIE * arg(0) * FREQ / SPEED * A.sqrt(ONE - arr(0) * arr(0))
    y = TWO * f_('cyl_bessel_j', ONE, x) / x
    yield from baffled(1, y * y)


def arb(f):
    k = len(f.params) - 1
    if k not in (1, 2):
        return
    n = None
    w = arg(1) if k == 2 else ONE
    yield from baffled(k, ('elements', w))


def omni(f):
    yield Case('', {}, num(1))


def grid(f):
    yield Case('', {}, ('grid',))


def multi(f):
    yield Case('sum', {1: enum('sum')}, ('parts', 0))
    yield Case('product', {1: enum('product')}, ('parts', 1))


# ------------------------------------------------------------- directivities
def wave():
    return SPEED / FREQ


def cardioid_dg(f):
    n = arg(0)
    yield Case('', {}, (num(3) + n * n) / (num(3) * (ONE + n) * (ONE + n)))


def trig_dg(f):
    null = f_('pow', num(10), num(0) - f_('abs', arg(1)) / num(20))
    for n in ('sine', 'cosine'):
        yield Case(n, {0: enum(n)}, null + (ONE - null) / num(3))


def solid_dg(f):
    de, h = deg(f_('asin', ste(2))), arg(0) / TWO
    lo, hi = num(0) - num(90), num(90)
    for seed in range(24):
        env = sample(seed, a0=(20, 170), a1=(40, 350))
        v = lambda y: value(y, dict(env))
        top = de + h if v(de + h) < 90 else hi
        low = de - h if v(de - h) > -90 else lo
        yield Case('', {}, (top - low) * arg(1) / num(180 * 360), lambda s, env=env: dict(env))


def line_dg(f):
    for n, k in (('HLA', 0), ('VLA', 2)):
        yield Case(n, {2: enum(n)}, ('pairs', k))


def planar_dg(f):
    nr, nu = arg(2), arg(0)
    y = num(3) * wave() * wave() / (TWO * PIE * PIE * arg(1) * arg(3) * A.sqrt((nr * nr - ONE) * (nu * nu - ONE)) * ste(0))
    env = lambda s: sample(s, a0=(2, 9), a2=(2, 9))
    yield Case('no baffle', {4: FALSE}, y, env)
    yield Case('baffle', {4: TRUE}, y / TWO, env)


def piston_dg(f):
    y = wave() / (PIE * arg(0))
    yield Case('no baffle', {1: FALSE}, TWO * y * y)
    yield Case('baffle', {1: TRUE}, y * y)


def omni_dg(f):
    yield Case('', {}, num(1))


def average(f):
    yield Case('', {}, ('average',))


LEVEL = {'bp_cardioid': cardioid, 'bp_trig': trig, 'bp_gaussian': gauss, 'bp_solid': solid, 'bp_line': lines, 'bp_planar': planar, 'bp_piston': piston, 'bp_arb': arb,
         'bp_omni': omni, 'bp_grid': grid, 'bp_multi': multi}
GAIN = {'bp_cardioid': cardioid_dg, 'bp_trig': trig_dg, 'bp_solid': solid_dg, 'bp_gaussian': solid_dg, 'bp_line': line_dg, 'bp_planar': planar_dg, 'bp_piston': piston_dg,
        'bp_omni': omni_dg, 'bp_model': average}


# -------------------------------------------------------------------- checks
def run(P):
    R = Result()
    R.rule = RULE
    C = Strict(R)
    for f in sorted(P.fns.values(), key=lambda f: (f.q, f.u)):
        c = short(f.cls) if f.cls else ''
        if f.entry is None or not c.startswith('bp_') or any('orientation' in p['t'] for p in f.params):
            continue
        spec = LEVEL.get(c) if f.n == 'beam_level' else GAIN.get(c) if f.n == 'directivity' else None
        if spec:
            for g in makers(P, f.cls) or [None]:
                attempt(R, f, lambda: judge(P, R, C, f, g, spec, c))
    R.need(R.counts.get('identities', 0), 8, 'identities')
    return R


def makers(P, cls):
    return [g for g in sorted(P.fns.values(), key=lambda g: g.u) if g.kind == 'ctor' and g.cls == cls and g.entry is not None
            and not (len(g.params) == 1 and short(g.params[0]['t'].replace('const ', '').rstrip('& ')) == short(cls))]


def made(P, g, case):
    """Members of an object that constructor g makes."""
    if g is None:
        return {}
    st = {('loc', (p['d'],)): case.args.get(k, ('arg', k)) for k, p in enumerate(g.params)}
    return members(P, g, st, case)


def members(P, g, st, case, kind=BSym):
    s = kind(P, g, case=case.env(1), state=st)
    out = {}
    for ini in g.r.get('inits', []):
        nd = g.nodes[ini['n']] if ini.get('base') and ini.get('n', -1) >= 0 else {}
        b = P.fns.get(nd.get('u'))
        if nd.get('k') == 'ctor' and b is not None and b.entry is not None and b is not g:
            out.update(members(P, b, {('loc', (p['d'],)): s.val[x] for p, x in zip(b.params, nd.get('c', [])) if x in s.val}, case, kind))
    end = s.ins.get(g.exit, {})
    out.update({l: v for l, v in end.items() if l[0] == 'mem' and l[1] == THIS})
    return out


def judge(P, R, C, f, g, spec, c):
    quantity = 'level' if f.n == 'beam_level' else 'directivity'
    arg_ = next(k for k, p in enumerate(f.params) if p['t'].rstrip().endswith('*'))
    for case in spec(g or f):
        st = made(P, g, case)
        s = BSym(P, f, case=case.env(1), state=st)
        prior = []
        R.count('cases')
        got = forms(s, [s.end(s.arg(arg_))], reading(s, prior), Decided)
        if prior:
            R.violation(f'{c}|{quantity}|prior', f'{f.short}: the {quantity} depends on what the output contained before ({case.what or "always"})', f.loc())
            continue
        verdicts = []
        for ch, v in got:
            w = case.want
            if isinstance(w, tuple):
                verdicts.append(STRUCTURE[w[0]](P, R, f, s, ch, v[0], w, case))
            else:
                verdicts.append(difference(v[0], w, case))
        bad = [v for v in verdicts if v]
        if None in verdicts or verdicts and len(bad) < len(verdicts):
            R.count('identities' if None in verdicts else 'formulas not judged')
            if None in verdicts and bad and len(got) > 1 and isinstance(case.want, tuple) and case.want[0] in ('pairs',):
                R.violation(f'{c}|{quantity}|{case.what}', f'{f.short}: {bad[0]}', f.loc())
            continue
        if bad:
            R.count('identities')
            R.violation(f'{c}|{quantity}|{case.what}', f'{f.short}: the {quantity}{" (" + case.what + ")" if case.what else ""} is not the documented one: {bad[0]}', f.loc())


def difference(got, want, case):
    """None when equal, a text when not, False when it cannot be told."""
    if any(a[0] in ('sym', 'out', 'phi', 'call', 'new', 'mat') or a[0] == 'loc' for a in got.atoms(True) - want.atoms(True)):
        return False
    d = differ(got, want, points=40, known=case.env)
    if d == 'unknown':
        return False
    if d in (None, 'agree'):
        return None
    return f'the formula gives {d[1]:.6g} instead of {d[2]:.6g} at a sample point'


def parts(P, R, f, s, ch, got, want, case):
    """One part combined with the neutral element."""
    outs = [a for a in got.atoms(True) if a[0] == 'out']
    if len(outs) != 1:
        return False
    o = outs[0]
    nd = f.nodes[o[1][-1]]
    if name(nd) != 'beam_level' or len(o[1]) != len(s.tag) + 1:
        return False
    args = [x for k, x in enumerate(nd['c']) if k != o[2]]
    own = [('loc', (p['d'],)) for k, p in enumerate(f.params) if not p['t'].rstrip().endswith('*')]
    given = [strip(s.val[x]) if x in s.val else None for x in args]
    if len(given) == len(own) and any(a != b and a in own for a, b in zip(given, own)):
        return 'the parts are evaluated for other arguments'
    y = var(o)
    if got.same(y):
        return None
    other = got - y
    return f'one part with level x gives {show(got).replace(show(y), "x")}' if not got.same(y) and got.atoms(True) == {o} else False


def grid_(P, R, f, s, ch, got, want, case):
    ts = [a for a in got.atoms(True) if a[0] == 'fn' and a[1].startswith('table')]
    if len(ts) != 1 or not got.same(var(ts[0])) or len(ts[0]) != 5:
        return False
    xs = [A.of(k) for k in ts[0][2:]]
    for x, w in zip(xs, (FREQ, deg(f_('asin', arr(2))), deg(f_('atan2', arr(1), arr(0))))):
        d = difference(x, w, case)
        if d is not None:
            return d and f'the table is read elsewhere, {d}'
    return None


def elements(P, R, f, s, ch, got, want, case):
    rows = {a for a in got.atoms(True) if a[0] == 'row'}
    if {a[2] for a in rows} - {('num', k) for k in range(3)} or len({a[1] for a in rows}) != 1:
        return False if rows else False
    at = {a[2][1]: var(a) for a in rows}
    e = num(0)
    for k in range(3):
        if k not in at:
            return f'the {AXIS[k]} coordinate of the elements does not count'
        e = e + at[k] * (arr(k) - ste(k))
    w = want[1]
    if ('arg', 1) not in got.atoms(True):
        w = ONE
    out = []
    for sign in (1, -1):
        z = f_('abs', f_('sum', w * f_('exp', num(sign) * var(('i',)) * TWO * PIE * FREQ / SPEED * e)))
        n = f_('abs', f_('sum', w))
        out.append(difference(got, z * z / (n * n), case))
    return None if None in out else False if False in out else out[0]


def pairs(P, R, f, s, ch, got, want, case):
    """The sum over pairs of elements: one term of it."""
    k = want[1]
    ix = sorted({a for a in got.atoms(True) if a[0] == 'phi'}, key=repr)
    n = arg(0)
    if not ix:
        return difference(got, ONE / (n * n), case)
    if len(ix) != 2:
        return False
    for p in ix:
        b = bounds(s, p, case)
        if b is None:
            return False
        if b is not True:
            return b
    m = var(ix[0]) - var(ix[1])
    a = TWO * PIE * arg(1) * FREQ / SPEED
    w = A.cos(a * m * ste(k)) * A.sin(a * m) / (a * m) / (n * n)
    d = differ(got, w, points=40, known=lambda seed: {**case.env(seed), ix[0]: 1.0 + seed % 5, ix[1]: 7.0 + seed % 3})
    return None if d in (None, 'agree') else False if d == 'unknown' else f'the term of a pair of elements gives {d[1]:.6g} instead of {d[2]:.6g} at a sample point'


def loop(s, p):
    """First value, step and condition of loop variable p."""
    h = p[1][-1]
    back = {x for q, x in s.phi.get(p, {}).items() if (q, h) in s.back}
    first = {x for q, x in s.phi.get(p, {}).items() if (q, h) not in s.back}
    if len(back) != 1 or len(first) != 1:
        return None
    blk = s.fn.blocks[h]
    c = blk.get('lc', blk.get('tc', -1))
    if c is None or c < 0 or c not in s.val:
        return None
    return first.pop(), back.pop(), s.val[c]


def bounds(s, p, case):
    """The loop visits each of the elements once."""
    x = loop(s, p)
    if x is None:
        return None
    first, back, cond = x
    r = Decided(s, {}, reading(s, None))
    try:
        a, b = r(first), r(back) - var(p)
        if cond[0] != 'op' or cond[1] not in ('<', '<=', '>', '>=', '!='):
            return None
        l, h = r(cond[2]), r(cond[3])
    except (Choice, TooBig, Unknown):
        return None
    if h.same(var(p)):
        l, h = h, l
    if not l.same(var(p)) or b.number() != 1 or a.number() is None:
        return None
    count = h - a + (ONE if '=' in cond[1] and cond[1] != '!=' else num(0))
    d = (count - arg(0)).number()
    if d is None:
        return None
    return True if d == 0 else f'the sum over elements has {d} terms too many'


def mean(P, R, f, s, ch, got, want, case):
    """The integral of the level over all directions."""
    outs = [a for a in got.atoms(True) if a[0] == 'out']
    if len(outs) != 1:
        return False
    nd = f.nodes[outs[0][1][-1]]
    if name(nd) != 'beam_level' or not nd.get('c'):
        return False
    r = Decided(s, {}, reading(s, None))
    u = []
    for k in range(3):
        v = s.val.get(nd['c'][0])
        u.append(r(('idx', ('mem', v, '_vector'), (('num', k),))))
    phis = sorted({a for y in u for a in y.atoms(True) if a[0] == 'phi'}, key=repr)
    if len(phis) != 2:
        return False
    de = next((p for p in phis if p in u[2].atoms(True)), None)
    az = next((p for p in phis if p != de), None)
    if de is None:
        return False
    grid = {}
    for p in phis:
        l = loop(s, p)
        if l is None:
            return False
        a, b, cond = r(l[0]), r(l[1]) - var(p), l[2]
        if cond[0] != 'op' or cond[1] not in ('<', '<='):
            return False
        lo, hi = r(cond[2]), r(cond[3])
        if not lo.same(var(p)):
            return False
        grid[p] = [value(y, {'seed': 1}) if all(z == PI or z[0] == 'fn' for z in y.atoms(True)) else None for y in (a, b, hi)]
        if None in grid[p]:
            return False
    at = lambda y, d, z: value(y, {'seed': 1, de: d, az: z})
    mid = {p: (a + h) / 2 for p, (a, b, h) in grid.items()}
    up = lambda d: math.asin(max(-1.0, min(1.0, at(u[2], d, mid[az]))))
    slope = {de: (up(mid[de] + grid[de][1]) - up(mid[de] - grid[de][1])) / (2 * grid[de][1])}
    off = {de: up(mid[de]) - slope[de] * mid[de]}
    if abs(slope[de]) < 1e-12:
        return 'the elevation does not change'
    level = -off[de] / slope[de]
    ang = lambda z: math.atan2(at(u[1], level, z), at(u[0], level, z))
    slope[az] = math.remainder(ang(mid[az] + grid[az][1]) - ang(mid[az] - grid[az][1]), 2 * math.pi) / (2 * grid[az][1])
    off[az] = ang(mid[az]) - slope[az] * mid[az]
    angle = {p: num(off[p]) + num(slope[p]) * var(p) for p in phis}
    D, Z = angle[de], angle[az]
    for k, y in enumerate([A.cos(D) * A.cos(Z), A.cos(D) * A.sin(Z), A.sin(D)]):
        if differ(u[k], y) not in (None, 'agree'):
            return f'the directions are not those of elevation and azimuth ({AXIS[k]})'
    width = {p: abs(slope[p] * grid[p][1]) for p in phis}
    for p, lo, size in ((de, -math.pi / 2, math.pi), (az, None, 2 * math.pi)):
        ends = sorted(off[p] + slope[p] * x for x in (grid[p][0], grid[p][2]))
        if grid[p][1] <= 0 or not 0 < width[p] <= 0.05 or abs(ends[1] - ends[0] - size) > 2.1 * width[p] or lo is not None and abs(ends[0] - lo) > 1.1 * width[p]:
            return 'the directions do not cover the sphere'
    steps = num(width[de]) * num(width[az])
    w = var(outs[0]) * A.cos(D) * steps / (num(4) * PIE)
    d = differ(got, w)
    return None if d in (None, 'agree') else False if d == 'unknown' else f'the contribution of a direction is {d[1]:.6g} instead of {d[2]:.6g} at a sample point'


STRUCTURE = {'parts': parts, 'grid': grid_, 'elements': elements, 'pairs': pairs, 'average': mean}
