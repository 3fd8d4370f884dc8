"""O03: the models of the environment follow the documented formulas."""
import math
import random
import algebra as A
from algebra import *
from cfgutil import name
from fields import getter
from models import OSym, family, short, NULL, leaf as mleaf
from p_b01 import BSym, Case, Decided, FREQ, ONE, TWO, PIE, TRUE, FALSE, added, arg, deg, f_, strip
from p_t01 import RADIUS, THIS, result as returned
from p_w04 import attempt
from result import Result
import p_b01

RULE = ('the output of each analytic model of the environment is reduced, for each kind of argument that the constructor accepts, to an exact normal form of the location, '
        'the frequency, the angles and the arguments of the constructor, which must be identical to the published formula; models that look up or forward to other models '
        'must do so for the location, frequency and angles they were given')
NEG = num(-1)


def par(k):
    return var(('par', k))


ALT = var(('rho',)) - RADIUS


class ESym(BSym):
    fixed = None

    def inliner(self, P, f):
        fam = family(P, f)
        return lambda g: fam(g) or g is not f and g.q.startswith('usml::ocean::') and not g.cls

    def __init__(self, P, f, **kw):
        self.places = set()
        self.inputs = {('loc', (p['d'],)) for p in f.params if p['t'].rstrip().endswith(('matrix<double>', '&'))}
        super().__init__(P, f, **kw)

    def meaning(self):
        return reading(self, None)

    def _lv(self, i):
        nd = self.fn.nodes[i]
        l = super()._lv(i)
        if nd['k'] == 'call' and nd.get('c') and (nd.get('op') in ('[]', '()') and nd.get('recv', -1) >= 0 or getter(nd)):
            ix = tuple(self.v(x) for x in nd['c'])
            s = top(self)
            if l[0] == 'loc' and l[1][0] == 'obj':
                s.places.add(ix)
            elif l[0] in ('loc', 'mem') and len(ix) == 2 and l not in self.st and (l if l[0] == 'loc' else l[1]) in s.inputs:
                return ('idx', l, ix)
        return l

    def call(self, i, nd, c):
        if nd.get('op') in ('[]', '()') and nd.get('recv', -1) >= 0 and len(c) == 1 and 'seq_vector' in self.fn.nodes[nd['recv']].get('t', '') and self.literal(c[0]):
            return ('idx', self.v(nd['recv']), (('element', self.v(c[0])),))
        return super().call(i, nd, c)

    def ctor(self, i, nd, c):
        if short(nd.get('q', nd.get('t', ''))) == 'vector' and len(c) == 1 and any('vector_expression' in p or 'scalar_vector' in p for p in nd.get('pt', [])):
            return self.v(c[0])
        return super().ctor(i, nd, c)


def top(s):
    while s.up is not None:
        s = s.up
    return s


class Outer(ESym):
    """Members of the class are calls."""

    def inliner(self, P, f):
        inner = super().inliner(P, f)
        return lambda g: g.n not in ('data', 'setdata', 'axis') and inner(g)


def reading(s, prior):
    t0 = top(s)
    f = t0.fn
    locs = [('loc', (p['d'],)) for p in f.params]
    ty = [p['t'].replace('const ', '').rstrip('& ') for p in f.params]
    place = next((l for l, t in zip(locs, ty) if t.split('::')[-1] in ('wposition', 'wposition1')), None)
    freq = next((l for l, t in zip(locs, ty) if 'seq_vector' in t), None)
    values = {l: k for k, (l, t) in enumerate(zip(locs, ty)) if t == 'double' or t.endswith('matrix<double>')}
    outs = {('loc', ('obj', p['d'])): k for k, p in enumerate(f.params) if p['t'].rstrip().endswith('*')}

    def leaf(r, t):
        k = t[0]
        b = strip(t)
        if t in outs:
            if prior is not None:
                prior.append(t)
            return var(('prior',))
        if k in ('mem', 'idx') and place is not None:
            m = t[1] if k == 'idx' else t
            if m[0] == 'mem' and m[1] == place and m[2].lstrip('._') in ('rho', 'theta', 'phi'):
                return var((m[2].lstrip('._'),) + (t[2] if k == 'idx' and not right(t0, t[2]) else ()))
        if k == 'idx' and t[1] in values:
            n = values[t[1]]
            return par(n) if right(t0, t[2]) else var(('par', n) + t[2])
        if k == 'loc' and t in values:
            return par(values[t])
        if k == 'loc' and t == freq or b == freq and k != 'loc':
            return FREQ
        if k == 'arg':
            return var(t)
        if k == 'glob' and t[1].endswith('earth_radius'):
            return RADIUS
        if k == 'glob' and s.P.vars.get(t[1], {}).get('const'):
            y = constant(s.P, s.P.vars[t[1]], s.P.vars[t[1]].get('init'))
            if y is not None:
                return y
        if k == 'mem' and t[1][0] == 'idx' and t[1][1][0] == 'glob' and t[2] in ROW and t[1][2] == (('arg', 0),):
            return arg(ROW[t[2]])
        if k == 'glob' and t[1].split('::')[-1] in ('M_PI_2', 'TWO_PI'):
            return PIE * (ONE / TWO if t[1].endswith('2') else TWO)
        if k == 'glob' and t[1].split('::')[-1] == 'M_LOG10E':
            return ONE / f_('log', num(10))
        if k in ('call', 'idx') and len(t) > 2:
            c = strip(t[2] if k == 'call' else t[1])
            if c == freq and (k == 'idx' or t[1] in ('operator()', 'operator[]', 'at', 'data')):
                if k == 'call' and len(t) < 4:
                    return FREQ
                i = t[2][0] if k == 'idx' else t[3]
                return FREQ if right(t0, (i,)) else var(('freq', i))
        if k == 'new':
            n = short(t[1])
            if n in ('scalar_vector', 'vector') and len(t) == 4:
                return r(t[3])
            if n == 'scalar_matrix' and len(t) == 5:
                return r(t[4])
            if n in ('zero_vector',):
                return num(0)
            if n == 'complex':
                return r(t[2]) + (var(('i',)) * r(t[3]) if len(t) > 3 else num(0)) if len(t) > 2 and isinstance(t[2], tuple) else num(0)
        if k == 'call' and t[1] in ('arg', 'real', 'imag', 'conj') and len(t) == 3:
            return f_(t[1], r(t[2]))
        if k == 'call' and t[1] == 'norm' and len(t) == 3:
            y = f_('abs', r(t[2]))
            return y * y
        return mleaf(r, t)
    return leaf


ROW = {'density': 0, 'speed': 1, 'att_bottom': 2, 'speed_shear': 3, 'att_shear': 4}


def constant(P, rec, i):
    """Value of a constant of the file."""
    if i is None or i < 0:
        return None
    nd = rec['nodes'][i]
    c = [constant(P, rec, x) for x in nd.get('c', []) if isinstance(x, int)]
    if nd['k'] == 'lit' and isinstance(nd.get('v'), (int, float)):
        return PIE if abs(nd['v'] - math.pi) < 1e-15 else num(nd['v'])
    if None in c:
        return None
    if nd['k'] == 'bin' and len(c) == 2 and nd['op'] in '+-*/':
        a, b = c
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[nd['op']]()
    if nd['k'] == 'un' and nd.get('op') == '-':
        return NEG * c[0]
    if nd['k'] in ('cast', 'paren') and len(c) == 1:
        return c[0]
    return None


def right(s, ix):
    """The element read is the one that is written."""
    if len(ix) == 1 and ix[0][0] == 'num':
        return True
    if any(x[0] in ('num', 'element') for x in ix):
        return False
    known = {w for w in s.places if len(w) == len(ix)}
    return ix in known or not any(set(ix) <= set(w) for w in known)


# ------------------------------------------------------------------ formulas
def sample(**fixed):
    def env(seed):
        rnd = random.Random(f'o03 {seed}')
        e = {'seed': seed, ('i',): 1j, ('freq',): rnd.uniform(200, 6000), RADIUS_ATOM: 6.37e6, ('rho',): 6.37e6 - rnd.uniform(50, 4000), ('theta',): rnd.uniform(0.6, 2.4), ('phi',): rnd.uniform(-3, 3)}
        for k in range(8):
            e[('par', k)] = rnd.uniform(0.1, 1.4)
            e[('arg', k)] = rnd.uniform(0.3, 3.0)
        e[('freq', ('element', ('num', 0)))] = 20000.0
        for k, v in fixed.items():
            lo, hi = v if isinstance(v, tuple) else (v, v)
            e[('freq',) if k == 'freq' else ('rho',) if k == 'rho' else ('par' if k[0] == 'p' else 'arg', int(k[1:]))] = rnd.uniform(lo, hi)
        if 'freq' in fixed and e[('freq',)] > 1000:
            e[('freq', ('element', ('num', 0)))] = 300.0
        return e
    return env


RADIUS_ATOM, = RADIUS.atoms()


def power(a, b):
    return f_('pow', a, b)


def db(x):
    return power(num(10), x / num(10))


def log10(x):
    return f_('log10', x)


class Model(Case):
    def __init__(self, want, what='', args=None, env=None, members=None, output=None):
        super().__init__(what, args or {}, want, env or sample())
        self.members, self.output = members or {}, output


def dec(s):
    """The decimal number s, exactly."""
    return num(Fraction(s))


def thorp(f):
    F2 = FREQ * FREQ / num(10 ** 6)
    a = (dec('0.0033') + F2 * (dec('3e-4') + num(44) / (num(4100) + F2) + dec('0.11') / (ONE + F2))) / num(1000)
    k = dec('5.88264e-6')
    yield Model(par(2) * a * (ONE + k * ALT) / (ONE - k * num(1000)))


def attenuation_constant(f):
    yield Model(arg(0) * par(2) * FREQ)


def flat(y, **kw):
    """Without and with the correction for a flat earth."""
    for what, on in (('', FALSE), ('flat earth', TRUE)):
        k = dict(kw)
        k['what'] = ', '.join(x for x in (kw.get('what', ''), what) if x)
        yield Model(y * var(('rho',)) / RADIUS if on == TRUE else y, members={'_flat_earth': on}, **k)


DEPTH = NEG * ALT


def munk(f):
    z = TWO * (DEPTH - arg(0)) / arg(1)
    yield from flat(arg(2) * (ONE + arg(3) * (z - ONE + f_('exp', NEG * z))), env=sample(a0=(900, 1400), a1=(900, 1400), a2=(1480, 1520)))


def linear(f):
    n = len(f.params)
    if n not in (2, 3, 5):
        return
    if n == 2:
        yield from flat(arg(0))
    elif n == 3:
        yield from flat(arg(0) + arg(1) * DEPTH)
    else:
        yield from flat(arg(0) + arg(1) * DEPTH, what='above the break', env=sample(a2=(5000, 6000)))
        yield from flat(arg(0) + arg(1) * arg(2) + arg(3) * (DEPTH - arg(2)), what='below the break', env=sample(a2=(10, 40)))


def n2(f):
    yield from flat(arg(0) / A.sqrt(ONE - TWO * arg(1) / arg(0) * ALT), env=sample(a0=(1480, 1520)))


def catenary(f):
    yield from flat(arg(0) * f_('cosh', (DEPTH - arg(2)) / arg(1)), env=sample(a2=(900, 1400), a1=(2000, 3000)))


def ambient_constant(f):
    yield Model(db(arg(0)))


def wenz(f):
    low, high, rainy, dry = (300, 500), (16000, 19000), (1100, 9000), (20, 400)
    L = log10(FREQ)
    base = [num(107) - num(30) * L, num(20) * L - num(75)]
    none = num(-300)
    ship = lambda n: num(76) - num(20) * (L - log10(num(30))) * (L - log10(num(30))) + num(5) * num(n - 4)
    k = num(21) * arg(0) / dec('0.51444444')
    wind = {low: num(44) + A.sqrt(k) + num(17) * (num(3) - L) * (L - TWO), high: num(95) + A.sqrt(k) - num(17) * L}
    wind[rainy] = wind[high]
    rain = {1: dec('64.942') + (dec('19.917') - dec('5.242') * L) * L, 2: dec('19.628') + (dec('42.933') - dec('7.516') * L) * L,
            3: dec('222.491') - (dec('135.904') - (dec('43.893') - dec('4.737') * L) * L) * L}
    for band in (low, rainy, high):
        for level in (0, 1, 4, 7, 8):
            for rate in (0, 1, 2, 3, 4):
                if level not in (0, 4) and rate:
                    continue
                parts = base + [ship(level) if 1 <= level <= 7 else none, wind[band], rain[rate] if band == rainy and rate in rain else none]
                y = num(0)
                for p in parts:
                    y = y + db(p)
                yield Model(y, f'shipping {level}, rain {rate}, {"below" if band == low else "above"} 1 kHz', {1: ('num', level), 2: ('num', rate)}, sample(freq=band, a0=(2, 20)))
    calm = base + [none, none, none]
    y = num(0)
    for p in calm:
        y = y + db(p)
    yield Model(y, 'no wind', {1: ('num', 0), 2: ('num', 0)}, sample(freq=low, a0=(-3, -1)))


def lambert(f):
    yield Model(f_('abs', db(arg(0)) * A.sin(par(2)) * A.sin(par(3))))


def scattering_constant(f):
    yield Model(db(arg(0)))


def chapman(f):
    beta = num(158) * power(arg(0) * dec('1.94384449') * power(FREQ, ONE / num(3)), dec('-0.58'))
    g = deg(par(2) + par(3)) / TWO
    yield Model(db(dec('3.3') * beta * log10(g / num(30) + dec('1e-6')) - dec('42.4') * log10(beta) + dec('2.6')))


def constant_loss(f):
    yield Model(arg(0), 'loss', output=0)
    yield Model(arg(1), 'phase', output=1)


def eckart(f):
    w = arg(0) * arg(0) * FREQ * A.sin(par(2))
    yield Model(dec('8.6e-9') * w * w, 'loss', output=0)
    yield Model(PIE, 'phase', output=1)


def beckmann(f):
    w, t = arg(0), par(2)
    at2 = t * t / (TWO * (dec('0.003') + dec('5.1e-3') * w))
    s = A.sin(t)
    peak = f_('max', ONE / TWO, ONE - f_('exp', NEG * at2 / num(4)) / A.sqrt(PIE * at2))
    v3 = f_('min', dec('0.99'), s * peak)
    y = num(-20) * (log10(A.sqrt(ONE - v3)) + log10(dec('0.3') + dec('0.7') / (ONE + dec('6e-11') * w * w * w * w * FREQ * FREQ)))
    for what, e in (('', {}), ('shallow grazing', {'p2': (0.01, 0.05)}), ('calm', {'a0': (0, 0.1), 'p2': (1.3, 1.5)})):
        yield Model(y, 'loss' + (', ' + what if what else ''), env=sample(**e), output=0)
    yield Model(PIE, 'phase', output=1)


def rayleigh(f):
    if len(f.params) not in (1, 5):
        return
    grazing = par(2)
    i = var(('i',))
    loss = num(1) / (num(20) * TWO * PIE) * f_('log', num(10))
    cw, rw = num(1500), num(1000)

    def medium(c, att):
        c = cw * c * (ONE - i * att * loss)
        s = A.cos(grazing) * c / cw
        return c, s, A.sqrt(ONE - s * s)
    c, s, cosb = medium(arg(1), arg(2))
    Zw = rw * cw / A.sin(grazing)
    Zp = rw * arg(0) * c / cosb
    cs, ss, coss = medium(arg(3), arg(4))
    Zs = rw * arg(0) * cs / coss
    c2, s2 = TWO * coss * coss - ONE, TWO * ss * coss
    Zt = Zp * c2 * c2 + Zs * s2 * s2
    for what, Z, args in (('fluid', Zp, {3: ('num', 0), 4: ('num', 0)}), ('solid', Zt, {}), ('solid without loss', None, {4: ('num', 0)})):
        if args and len(f.params) == 1:
            continue
        if Z is None:
            cs, ss, coss = medium(arg(3), num(0))
            Zs = rw * arg(0) * cs / coss
            c2, s2 = TWO * coss * coss - ONE, TWO * ss * coss
            Z = Zp * c2 * c2 + Zs * s2 * s2
        r = (Z - Zw) / (Z + Zw)
        env = sample(a0=(1.2, 2.7), a1=(1.02, 2.0), a2=(0.1, 1.0), a3=(0.2, 0.9), a4=(0.2, 2.0))
        yield Model(num(-20) * log10(f_('abs', r)), what + ', loss', args, env, output=0)
        yield Model(f_('arg', r), what + ', phase', args, env, output=1)


SPEC = {
    ('attenuation_thorp', 'attenuation'): thorp, ('attenuation_constant', 'attenuation'): attenuation_constant,
    ('profile_munk', 'sound_speed'): munk, ('profile_linear', 'sound_speed'): linear, ('profile_n2', 'sound_speed'): n2, ('profile_catenary', 'sound_speed'): catenary,
    ('ambient_constant', 'ambient'): ambient_constant, ('ambient_wenz', 'ambient'): wenz,
    ('scattering_lambert', 'scattering'): lambert, ('scattering_constant', 'scattering'): scattering_constant, ('scattering_chapman', 'scattering'): chapman,
    ('reflect_loss_constant', 'reflect_loss'): constant_loss, ('reflect_loss_eckart', 'reflect_loss'): eckart, ('reflect_loss_beckmann', 'reflect_loss'): beckmann,
    ('reflect_loss_rayleigh', 'reflect_loss'): rayleigh,
}


# -------------------------------------------------------------------- checks
def run(P):
    R = Result()
    R.rule = RULE
    for f in sorted(P.fns.values(), key=lambda f: (f.q, f.u)):
        if f.entry is None:
            continue
        spec = SPEC.get((short(f.cls), f.n)) if f.cls and f.q.startswith('usml::ocean::') else None
        if spec:
            for g in p_b01.makers(P, f.cls):
                attempt(R, f, lambda: judge(P, R, f, g, spec))
        if f.q.startswith('usml::ocean::') and f.n in FORWARD and f.cls and not spec:
            attempt(R, f, lambda: forward(P, R, f))
        if f.q.startswith(('usml::ocean::', 'usml::netcdf::')):
            attempt(R, f, lambda: axes(P, R, f))
        if short(f.cls) == 'data_grid_mackenzie' and f.kind == 'ctor' and len(f.params) == 2:
            attempt(R, f, lambda: mackenzie(P, R, f))
        if f.n == 'wave_height_pierson' and f.params:
            attempt(R, f, lambda: pierson(P, R, f))
    for q, r in sorted(P.vars.items()):
        if q.endswith('reflect_loss_rayleigh::lookup'):
            sediments(P, R, r)
    return R


FORWARD = ('attenuation', 'scattering', 'reflect_loss', 'ambient', 'sound_speed')


def forward(P, R, f):
    """Models that ask another model."""
    found = []

    def hook(z, i, nd):
        if nd['k'] == 'call' and name(nd) == f.n and nd.get('recv', -1) >= 0 and z.up is None:
            r = z.v(nd['recv'])
            if r != THIS:
                found.append((i, nd, r, [z.v(x) for x in nd['c']]))
    s = ESym(P, f, case=sample()(1), hook=hook)
    own = [('loc', (p['d'],)) for p in f.params]
    for i, nd, r, got in {x[0]: x for x in found}.values():
        want = own[len(own) - len(got):]
        R.count('forwarded questions')
        for k, (a, b) in enumerate(zip(got, want)):
            a = strip(a)
            if a == b or a[0] == 'new' and b in a[2:]:
                continue
            if a in own or a[0] == 'num':
                R.violation(f'{short(f.cls)}|{f.n}|forward', f'{f.short} passes {"a constant" if a[0] == "num" else "another argument"} in place of argument {k + 1} to {name(nd)} of the model that it asks', f'{f.r["file"]}:{nd["l"]}')
        lookup(P, R, f, s, nd, strip(r))


def lookup(P, R, f, s, nd, r):
    """The model that is asked is the one of the province at the location."""
    while r[0] in ('deref', '&'):
        r = r[1]
    ix = r[2] if r[0] == 'idx' else r[3:] if r[0] == 'call' and r[1] in ('operator[]', 'at') else ()
    if len(ix) != 1:
        return
    t = ix[0]
    while t[0] in ('cast',) or t[0] == 'call' and len(t) == 3 and t[1] in ('trunc', 'floor', 'round'):
        t = t[2]
    if t[0] != 'table' or len(t) != 4:
        return
    try:
        (ch, xs), = forms(s, t[2:], reading(s, None), Decided)
    except ValueError:
        return
    case = Model(None)
    for k, (x, w, n) in enumerate(zip(xs, (num(90) - deg(var(('theta',))), deg(var(('phi',)))), ('latitude', 'longitude'))):
        d = p_b01.difference(x, w, case)
        if d is False:
            R.count('formulas not judged')
            continue
        R.count('identities')
        if d:
            R.violation(f'{short(f.cls)}|province|{n}', f'{f.short} looks up the province for another {n}: {d}', f'{f.r["file"]}:{nd["l"]}')


def axes(P, R, f):
    """An axis of n values between the ends of a list of n."""
    if not any(nd['k'] in ('ctor', 'new') and short(nd.get('q', nd.get('t', ''))) == 'seq_linear' for nd in f.nodes):
        return
    s = OSym(P, f, pointwise=False, inline=lambda g: False)
    for nd in f.nodes:
        if nd['k'] != 'ctor' or short(nd.get('q', nd.get('t', ''))) != 'seq_linear' or len(nd.get('c', [])) < 3 or nd.get('pt', ['', ''])[-1] not in ('unsigned long', 'int', 'long', 'size_t'):
            continue
        if any(x not in s.val for x in nd['c'][:3]):
            continue
        try:
            (ch, (a, d, n)), = forms(s, [s.val[x] for x in nd['c'][:3]], mleaf)
        except (ValueError, TooBig, Unknown):
            continue
        ends = [x for x in d.atoms() if x[0] == 'idx' and len(x[2]) == 1 and a.same(var(('idx', x[1], (('num', 0),))))]
        for x in ends:
            rd = Decided(s, {}, mleaf)
            if rd(x[2][0]).same(n - ONE):
                R.count('identities')
                if not (a + d * (n - ONE)).same(var(x)):
                    R.violation(f'{f.short}|axis|{nd["l"]}', f'{f.short}: the axis does not end at the last coordinate of the list', f'{f.r["file"]}:{nd["l"]}')


def mackenzie(P, R, f):
    found = []

    def hook(z, i, nd):
        if nd['k'] == 'call' and name(nd) == 'setdata' and z.up is None and len(nd['c']) == 2:
            found.append((i, nd, z.v(nd['c'][1])))
    s = Outer(P, f, case=sample()(1), hook=hook)
    own = [('loc', (p['d'],)) for p in f.params]
    for i, nd, t in {x[0]: x for x in found}.values():
        def leaf(r, t):
            if t[0] == 'call' and t[1] == 'data' and len(t) == 4 and strip(t[2]) in own:
                return var(('TS'[own.index(strip(t[2]))],))
            if t[0] in ('idx', 'call') and 'axis' in repr(t)[:400] and 'data' not in (t[1],):
                b = t[1] if t[0] == 'idx' else t[2]
                b = strip(b)
                if b[0] == 'call' and b[1] == 'axis' and b[-1] == ('num', 0):
                    return RADIUS - var(('D',))
            if t[0] == 'glob' and t[1].endswith('earth_radius'):
                return RADIUS
            return mleaf(r, t)
        (ch, (got,)), = forms(s, [t], leaf, Decided)
        T, S, D = var(('T',)), var(('S',)), var(('D',))
        want = (dec('1448.96') + dec('4.591') * T - dec('5.304e-2') * T * T + dec('2.374e-4') * T * T * T + dec('1.340') * (S - num(35)) + dec('1.630e-2') * D + dec('1.675e-7') * D * D
                - dec('1.025e-2') * T * (S - num(35)) - dec('7.139e-13') * T * D * D * D)
        env = lambda seed: {'seed': seed, **dict(zip((('T',), ('S',), ('D',)), (random.Random(seed).uniform(2, 30), random.Random(seed + 99).uniform(30, 40), random.Random(seed + 7).uniform(10, 8000))))}
        d = p_b01.difference(got, want, Model(None, env=env))
        if d is False:
            R.count('formulas not judged')
            continue
        R.count('identities')
        if d:
            R.violation('mackenzie', f'{f.short}: the speed is not that of the nine term equation: {d}', f'{f.r["file"]}:{nd["l"]}')


def pierson(P, R, f):
    s = ESym(P, f, case=sample()(1))
    got = [v[0] for ch, v in forms(s, returned(f, s), reading(s, None), Decided)]
    w = par(0)
    for y in got:
        d = p_b01.difference(y, dec('0.22') / dec('9.8') / num(4) * w * w, Model(None))
        if d is False:
            R.count('formulas not judged')
            continue
        R.count('identities')
        if d:
            R.violation('wave_height_pierson', f'{f.short}: the wave height is not the documented one: {d}', f.loc())


SEDIMENT = {'clay': (1.5, 1.00, 0.2, 0.00), 'silt': (1.7, 1.05, 1.0, 0.00), 'sand': (1.9, 1.10, 0.8, 0.00), 'gravel': (2.0, 1.20, 0.6, 0.00), 'moraine': (2.1, 1.30, 0.4, 0.40),
            'chalk': (2.2, 1.60, 0.2, 0.67), 'limestone': (2.4, 2.00, 0.1, 1.00), 'basalt': (2.7, 3.50, 0.1, 1.67)}
ASSET = {'clay': 1.0, 'silt': 1.5, 'sand': 2.5, 'gravel': 1.5, 'moraine': 1.0, 'chalk': 0.5, 'limestone': 0.2, 'basalt': 0.2}


def sediments(P, R, rec):
    """The table of sediments: each type stands at its own number."""
    nodes = rec.get('nodes', [])
    rows = [nd for nd in nodes if nd['k'] == 'init' and len(nd.get('c', [])) == 6 and nodes[nd['c'][0]].get('vk') == 'enum']
    for k, nd in enumerate(rows):
        e = nodes[nd['c'][0]]
        v = [constant(P, rec, x) for x in nd['c'][1:]]
        R.count('rows of the table of sediments')
        at = f'{rec["file"]}:{nd["l"]}'
        if e.get('v') != k:
            R.violation(f'sediment|{e["n"]}|row', f'the row of {e["n"]} stands at {k} but is looked up at {e.get("v")}', at)
        want = SEDIMENT.get(e['n'])
        if want and None not in v:
            for x, w, n in zip(v, want + (ASSET[e['n']],), ROW):
                if x.number() is not None and abs(float(x.number()) - w) > 1e-9:
                    R.violation(f'sediment|{e["n"]}|{n}', f'{n} of {e["n"]} is {float(x.number()):g} instead of {w:g}', at)


def made(P, g, case):
    st = {('loc', (p['d'],)): case.args.get(k, ('arg', k)) for k, p in enumerate(g.params)}
    out = p_b01.members(P, g, st, case, ESym)
    for n, v in case.members.items():
        out[('mem', THIS, n)] = v
    return out


def judge(P, R, f, g, spec):
    outs = [k for k, p in enumerate(f.params) if p['t'].rstrip().endswith('*')]
    for case in spec(g):
        s = ESym(P, f, case=case.env(1), state=made(P, g, case))
        prior = []
        R.count('cases')
        k = outs[case.output or 0]
        got = forms(s, [s.end(s.arg(k))], reading(s, prior), Decided)
        key = f'{short(f.cls)}|{"many" if any(p["t"].split("::")[-1].startswith("wposition &") for p in f.params) else "one"}|{case.what}'
        if prior:
            R.count('identities')
            R.violation(key, f'{f.short}: the result depends on what the output contained before ({case.what or "always"})', f.loc())
            continue
        verdicts = [p_b01.difference(v[0], case.want, case) for ch, v in got]
        bad = [v for v in verdicts if v]
        if None in verdicts:
            R.count('identities')
        elif verdicts and len(bad) == len(verdicts):
            R.count('identities')
            R.violation(key, f'{f.short}: the result{" (" + case.what + ")" if case.what else ""} is not the documented one: {bad[0]}', f.loc())
        else:
            R.count('formulas not judged')
            R.note(f'{f.short} {case.what}: not judged') if hasattr(R, 'note') else None
