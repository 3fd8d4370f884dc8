"""T01: coordinates keep their meaning through every conversion."""
from fractions import Fraction as F
import random
import sys
import algebra as A
from algebra import *
from cfgutil import name
from fields import COMPS, FSym
from models import short, leaf as mleaf
from p_w04 import Check, attempt
from result import Result

RULE = ('every conversion of coordinates is reduced to an exact normal form of its arguments and members and must be identical, on every path, to the relation between '
        'spherical, Cartesian, geodetic and local coordinates; a difference is only reported together with a point at which the two have different values')
THIS = ('this',)
RAD = num(math.pi) / num(180)
RADIUS = var(('glob', 'usml::types::wposition::earth_radius'))
MATH = ('math_traits',)


class Deep(FSym):
    deepest = 6


class Strict(Check):
    """Only formulas that are reduced to arguments, members and known functions."""

    def same(self, key, f, what, got, want, **kw):
        if any(a[0] in ('sym', 'out', 'phi', 'call', 'new') or a[0] == 'idx' and a[1][0] not in ('mem', 'loc') and a[1][:2] != ('call', 'rotation') for a in got.atoms(True) - want.atoms(True)):
            self.R.count('formulas not judged')
            return True
        return super().same(key, f, what, got, want, **kw)


def run(P):
    R = Result()
    R.rule = RULE
    C = Strict(R)
    for f in sorted(P.fns.values(), key=lambda f: (f.q, f.u)):
        if f.entry is None:
            continue
        c = short(f.cls) if f.cls else ''
        for go in (units, components, geodetic, products, directions, areas, great_circle, body, orient, earth, motion):
            attempt(R, f, lambda: go(P, R, C, f, c))
    R.need(R.counts.get('identities', 0), 10, 'identities')
    return R


def leaf(r, t):
    if t[0] == 'mem' and t[2] in ('_rho', '_theta', '_phi'):
        return var(('mem', rename(t[1]), '.' + t[2][1:]))
    if t[0] == 'glob' and t[1].endswith('earth_radius'):
        return RADIUS
    if t[0] == 'glob' and t[1].split('::')[-1] == 'TWO_PI':
        return num(2 * math.pi)
    return mleaf(r, t)


def rename(t):
    return t


def ev(P, f, pointwise=True):
    inline = lambda g: g is not f and bool(g.cls) and short(g.cls) in ('wposition', 'wposition1', 'wvector', 'wvector1', 'bvector') and g.kind not in ('dtor',)
    return Deep(P, f, pointwise=pointwise, inline=inline)


def result(f, s):
    """Terms that f returns."""
    return [s.val[y['c'][0]] for x, y in enumerate(f.nodes) if y['k'] == 'ret' and y.get('c') and y['c'][0] in s.val]


def param(f, k):
    return var(('loc', (f.params[k]['d'],)))


def member(l, c):
    return var(('mem', l, c))


def vec(l):
    return [member(l, '.' + c) for c in COMPS]


def values(s, ts):
    return forms(s, ts, leaf)


def ty(p):
    return p['t'].replace('const ', '').strip()


# ------------------------------------------------------------ units of angles
def units(P, R, C, f, c):
    if c != 'math_traits' and not c.startswith('scalar_') or f.n not in ('to_radians', 'to_degrees', 'to_latitude', 'to_colatitude') or len(f.params) != 1:
        return
    s = FSym(P, f, inline=lambda g: False)
    x = param(f, 0)
    want = {'to_radians': x * RAD, 'to_degrees': x / RAD, 'to_latitude': num(90) - x / RAD, 'to_colatitude': (num(90) - x) * RAD}[f.n]
    for t in result(f, s):
        for _, v in values(s, [t]):
            C.same(f'{f.n}', f, 'the conversion of angles is wrong', v[0], want)


# ---------------------------------------------------------------- components
def components(P, R, C, f, c):
    if c not in ('wvector', 'wvector1') or f.n not in COMPS or f.kind in ('ctor', 'dtor'):
        return
    s = FSym(P, f, inline=lambda g: False)
    here = ('mem', THIS, '_' + f.n)
    n = [p for p in f.params if ty(p) not in ('bool',)]
    ix = tuple(('loc', (p['d'],)) for p in n[:2]) if len(n) >= 2 else None
    place = ('idx', here, ix) if ix else here
    ts = result(f, s)
    key = f'{c}|{f.n}|{len(n)}'
    if ts:
        for t in ts:
            R.count('identities')
            if t[0] in ('mem', 'idx') and t != place and roots(t) == THIS:
                R.violation(key, f'{f.short}: returns another component or element than {f.n}', f.loc())
    elif n:
        changed = {k for k, v in s.ins.get(f.exit, {}).items() if k[0] in ('mem', 'idx') and roots(k) == THIS}
        R.count('identities')
        if changed and any(k != place for k in changed) and not any(inside(place, k) for k in changed if k != place):
            R.violation(key, f'{f.short}: sets another component or element than {f.n}', f.loc())
        elif not changed:
            R.count('formulas not judged')
        else:
            for _, v in values(s, [s.end(place)]):
                if not any(a[0] in ('sym', 'out') for a in v[0].atoms(True)):
                    C.same(key, f, f'does not set {f.n} to its argument', v[0], param(f, f.params.index(n[-1])))


def roots(t):
    while t[0] in ('mem', 'idx', '&'):
        t = t[1]
    return t


def inside(a, b):
    while a[0] in ('mem', 'idx'):
        a = a[1]
        if a == b:
            return True
    return False


# ------------------------------------------------------------------ geodetic
GEODETIC = {'latitude': ('.theta', lambda x: (num(90) - x) * RAD, lambda x: num(90) - x / RAD),
            'longitude': ('.phi', lambda x: x * RAD, lambda x: x / RAD),
            'altitude': ('.rho', lambda x: x + RADIUS, lambda x: x - RADIUS)}


def geodetic(P, R, C, f, c):
    if c not in ('wposition', 'wposition1'):
        return
    n = [k for k, p in enumerate(f.params) if ty(p) not in ('bool', 'size_t', 'unsigned long')]
    if f.n in GEODETIC and f.kind not in ('ctor', 'dtor'):
        comp, put, get = GEODETIC[f.n]
        s = ev(P, f)
        ts = result(f, s)
        if ts and not n:
            for t in ts:
                for _, v in values(s, [t]):
                    C.same(f'{c}|{f.n}|get', f, f'{f.n} is not the one that the position stores', v[0], get(member(THIS, comp)))
        elif len(n) == 1 and not ts:
            for _, v in values(s, [s.end(('mem', THIS, '.' + k)) for k in COMPS]):
                for k, x in zip(COMPS, v):
                    C.same(f'{c}|{f.n}|set|{k}', f, f'setting the {f.n} does not store it in {k}' if '.' + k == comp else f'setting the {f.n} changes {k}',
                           x, put(param(f, n[0])) if '.' + k == comp else member(THIS, '.' + k))
    if f.kind == 'ctor':
        reals = [k for k in n if ty(f.params[k]) == 'double']
        s = ev(P, f)
        if len(reals) == 3 and len(n) == 3:
            for _, v in values(s, [s.end(('mem', THIS, '.' + k)) for k in COMPS]):
                want = [GEODETIC[g][1](param(f, k)) for g, k in zip(('altitude', 'latitude', 'longitude'), (reals[2], reals[0], reals[1]))]
                for k, x, w in zip(COMPS, v, want):
                    C.same(f'{c}|new|{k}', f, f'a new position does not store the {"altitude latitude longitude".split()[COMPS.index(k)]} it is given', x, w)


# --------------------------------------------------------- products, distance
def cosine(a, b):
    """Cosine of the angle between two spherical directions."""
    return A.cos(a[1]) * A.cos(b[1]) + A.sin(a[1]) * A.sin(b[1]) * A.cos(a[2] - b[2])


def dist2(a, b):
    return a[0] * a[0] + b[0] * b[0] - num(2) * a[0] * b[0] * cosine(a, b)


def where(seed):
    return {}


def products(P, R, C, f, c):
    if c not in ('wvector', 'wvector1') or f.n not in ('dot', 'dotnorm', 'distance', 'distance2') or not f.params:
        return
    s = ev(P, f)
    a, b = vec(THIS), vec(('loc', (f.params[0]['d'],)))
    ts = result(f, s) or [s.end(s.arg(1))] if len(f.params) > 1 else result(f, s)
    want = {'dot': a[0] * b[0] * cosine(a, b), 'dotnorm': cosine(a, b), 'distance2': dist2(a, b), 'distance': A.sqrt(dist2(a, b))}[f.n]
    for t in ts:
        for _, v in values(s, [t]):
            if not any(x[0] in ('sym', 'out') for x in v[0].atoms(True)):
                C.same(f'{c}|{f.n}', f, 'the formula is not that of the spherical coordinates of two points', v[0], want)


def areas(P, R, C, f, c):
    if c != 'wvector1' or f.n != 'area' or len(f.params) not in (2, 3):
        return
    s = ev(P, f)
    ps = [vec(THIS)] + [vec(('loc', (p['d'],))) for p in f.params]

    def heron(x, y, z):
        a, b, c = (A.fn('abs', dist2(p, q)) for p, q in ((x, y), (y, z), (z, x)))
        # 16 area^2 = 2(a2 b2 + b2 c2 + c2 a2) - (a4 + b4 + c4)
        return num(F(1, 4)) * A.sqrt(num(2) * (a * b + b * c + c * a) - a * a - b * b - c * c)
    want = heron(*ps[:3]) + (heron(ps[0], ps[2], ps[3]) if len(ps) == 4 else num(0))
    for t in result(f, s):
        for _, v in values(s, [t]):
            C.same(f'{c}|area|{len(ps)}', f, 'the area of the triangles is wrong', v[0], want)


# ---------------------------------------------------------------- directions
def cartesian(a):
    return [a[0] * A.sin(a[1]) * A.cos(a[2]), a[0] * A.sin(a[1]) * A.sin(a[2]), a[0] * A.cos(a[1])]


def tangent(p):
    """Up, south and east at position p."""
    st, ct, sp, cp = A.sin(p[1]), A.cos(p[1]), A.sin(p[2]), A.cos(p[2])
    return [[st * cp, st * sp, ct], [ct * cp, ct * sp, -st], [-sp, cp, num(0)]]


def directions(P, R, C, f, c):
    if c != 'wvector1' or f.n != 'direction' or len(f.params) != 2:
        return
    s = ev(P, f)
    a = vec(THIS)
    k = [ty(p) for p in f.params]
    if all(x.replace(' ', '') == 'double*' for x in k):
        for _, v in values(s, [s.end(s.arg(0)), s.end(s.arg(1))]):
            want = [A.fn('atan2', a[0], A.sqrt(a[1] * a[1] + a[2] * a[2])) / RAD, A.fn('atan2', a[2], -a[1]) / RAD]
            for n, x, w in zip(('elevation', 'azimuth'), v, want):
                C.same(f'{c}|direction|{n}', f, f'the {n} is not that of the direction', x, w)
        return
    p = vec(('loc', (f.params[0]['d'],)))
    if '*' not in k[1]:
        d = vec(('loc', (f.params[1]['d'],)))
        x = [u - w for u, w in zip(cartesian(d), cartesian(p))]
        n = A.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])
        want = [(e[0] * x[0] + e[1] * x[1] + e[2] * x[2]) / n for e in tangent(p)]
        ts = result(f, s)
        for _, v in values(s, [s.end(('mem', THIS, '.' + q)) for q in COMPS] + ts[:1]):
            for q, y, w in zip(COMPS, v, want):
                C.same(f'{c}|direction|to|{q}', f, f'the {q} component is not the direction to the point in the local tangent plane', y, w)
            if len(v) > 3:
                C.same(f'{c}|direction|to|length', f, 'the length is not the distance to the point', v[3], n)
        return
    e = tangent(p)
    x = [sum((a[j] * e[j][i] for j in range(1, 3)), a[0] * e[0][i]) for i in range(3)]
    want = [A.fn('atan2', A.sqrt(x[0] * x[0] + x[1] * x[1]), x[2]), A.fn('atan2', x[1], x[0])]
    o = s.arg(1)
    for _, v in values(s, [s.end(('mem', o, '.' + q)) for q in COMPS[1:]]):
        for q, y, w in zip(COMPS[1:], v, want):
            C.same(f'{c}|direction|from|{q}', f, f'the {q} component is not the geocentric direction of the local one', y, w)


# -------------------------------------------------------------- great circle
def great_circle(P, R, C, f, c):
    if c != 'wposition1':
        return
    if f.n == 'gc_range' and len(f.params) == 2:
        s = ev(P, f)
        a, b = vec(THIS), vec(('loc', (f.params[0]['d'],)))
        want = a[0] * A.fn('acos', cosine(a, b))
        for t in result(f, s):
            for _, v in values(s, [t]):
                C.same(f'{c}|range', f, 'the range is not that of the great circle', v[0], want)
        # bearing: its sine and cosine are those of the tangent to the great circle
        east = A.sin(b[1]) * A.sin(b[2] - a[2])
        north = A.cos(b[1]) * A.sin(a[1]) - A.sin(b[1]) * A.cos(a[1]) * A.cos(b[2] - a[2])
        n = A.sqrt(east * east + north * north)
        good = 0
        for _, v in values(s, [s.end(s.arg(1))]):
            x = v[0]
            if not x.atoms() or x.number() is not None or set(x.atoms(True)) <= {PI}:
                continue
            if any(q[0] not in ('fn', 'mem', 'glob') and q != PI for q in x.atoms(True)):
                R.count('formulas not judged')
                continue
            good += 1
            C.same(f'{c}|bearing', f, 'the bearing is not that of the great circle', A.sin(x) + num(3) * A.cos(x), (east + num(3) * north) / n)
        if not good:
            R.count('formulas not judged')
        special(P, R, f, s, a, b)
    if f.kind == 'ctor' and len(f.params) == 3 and ty(f.params[1]) == ty(f.params[2]) == 'double' and 'wposition1' in ty(f.params[0]):
        s = ev(P, f)
        p = vec(('loc', (f.params[0]['d'],)))
        d, b = param(f, 1) / p[0], param(f, 2)
        sl = A.cos(p[1]) * A.cos(d) + A.sin(p[1]) * A.sin(d) * A.cos(b)
        want = [p[0], num(math.pi) / num(2) - A.fn('asin', sl), None]
        for _, v in values(s, [s.end(('mem', THIS, '.' + q)) for q in COMPS]):
            C.same(f'{c}|destination|rho', f, 'the point at a range and bearing has another altitude', v[0], want[0])
            C.same(f'{c}|destination|theta', f, 'the latitude of the point at a range and bearing is not that of the great circle', v[1], want[1])
            lng = v[2] - p[2]
            x, y = A.cos(d) - A.cos(p[1]) * sl, A.sin(b) * A.sin(d) * A.sin(p[1])
            C.same(f'{c}|destination|phi', f, 'the longitude of the point at a range and bearing is not that of the great circle', A.fn('atan2', A.sin(lng), A.cos(lng)), A.fn('atan2', y, x))


def special(P, R, f, s, a, b):
    """Tests for nearly zero must not single out regular points."""
    regular = {'from a point on the equator': (math.pi / 2, 0.3, 1.2, 0.9), 'to a point on the equator': (1.0, 0.2, math.pi / 2, 0.9), 'from longitude zero': (1.1, 0.0, 0.7, 0.5),
               'to longitude zero': (2.0, 0.4, 1.3, 0.0), 'to the same latitude': (1.1, -0.4, 1.1, 0.6), 'from the south': (2.3, 0.4, 1.3, 0.7), 'to the south': (1.3, 0.4, 2.3, 0.7),
               'from the west': (1.1, -0.4, 1.3, 0.7), 'to the west': (1.1, 0.4, 1.3, -0.7), 'to the same longitude': (1.1, 0.4, 1.3, 0.4)}
    for i, nd in enumerate(f.nodes):
        if nd['k'] != 'bin' or nd.get('op') not in ('<', '<=', '>', '>='):
            continue
        l, r = nd['c'] if nd['op'][0] == '<' else nd['c'][::-1]
        if l not in s.val or r not in s.val:
            continue
        try:
            for _, (x, k) in values(s, [s.val[l], s.val[r]]):
                k = k.number()
                if k is None or not 0 < k < F(1, 1000):
                    continue
                R.count('tests for special points')
                for where, p in regular.items():
                    env = {'seed': 0, ('glob', 'usml::types::wposition::earth_radius'): 6371000.0}
                    for v, w in zip(a + b, (6371000.0,) + p[:2] + (6371000.0,) + p[2:]):
                        env[next(iter(v.atoms()))] = w
                    y = value(x, env)
                    if y < float(k):
                        R.violation(f'wposition1|special|{where}', f'{f.short}: a bearing {where} is treated as one at a pole or at range zero (colatitude {p[0]:.3g}, longitude {p[1]:.3g})', f'{f.r["file"]}:{nd.get("l", f.r.get("line", 0))}')
        except (TooBig, Unknown, ValueError, ZeroDivisionError, StopIteration):
            R.count('formulas not judged')


# --------------------------------------------------------- earth, body, motion
def earth(P, R, C, f, c):
    if f.n != 'compute_earth_radius' or len(f.params) != 1:
        return
    s = ev(P, f)
    lat = param(f, 0) * RAD
    fl = num(1) / num(298.257223563)
    e2 = fl * (num(2) - fl)
    w = A.sqrt(num(1) - e2 * A.sin(lat) * A.sin(lat))
    want = num(6378137) * A.sqrt(num(1) - e2) / (w * w)
    got = [s.v(nd['c'][1]) for i, nd in enumerate(f.nodes) if nd['k'] == 'bin' and nd.get('asg') and nd['op'] == '=' and (f.nodes[nd['c'][0]].get('q') or '').endswith('earth_radius')]
    for t in got:
        for _, v in forms(s, [t], mleaf):
            C.same('earth radius', f, 'the radius is not the mean radius of curvature of the WGS-84 ellipsoid', v[0], want)


BODY = ('front', 'right', 'up')


def body(P, R, C, f, c):
    if c != 'bvector':
        return
    s = ev(P, f, False)
    place = lambda k: ('idx', ('mem', THIS, '_vector'), (('num', k),))
    if f.kind == 'ctor' and [ty(p) for p in f.params] in (['double'] * 2, ['double'] * 3):
        x = [param(f, k) for k in range(len(f.params))]
        want = x if len(x) == 3 else [A.cos(x[0] * RAD) * A.cos(x[1] * RAD), A.cos(x[0] * RAD) * A.sin(x[1] * RAD), A.sin(x[0] * RAD)]
        for _, v in values(s, [s.end(place(k)) for k in range(3)]):
            for n, y, w in zip(BODY, v, want):
                C.same(f'{c}|new|{len(x)}|{n}', f, f'a new body vector has the wrong component toward the {n}', y, w)
    elif f.n in BODY:
        k = BODY.index(f.n)
        if not f.params:
            for t in result(f, s):
                for _, v in values(s, [t]):
                    C.same(f'{c}|{f.n}|get', f, f'another component than {f.n} is returned', v[0], var(place(k)))
        else:
            for _, v in values(s, [s.end(place(j)) for j in range(3)]):
                for j, y in enumerate(v):
                    C.same(f'{c}|{f.n}|set', f, f'setting {f.n} changes another component' if j != k else f'{f.n} is not set', y, param(f, 0) if j == k else var(place(j)))


ANGLES = ('yaw', 'pitch', 'roll')
TURN = ('mem', THIS, '_rotation')


def turned(y, p, r):
    """Rotation matrix of the documented angles, in degrees."""
    cy, sy, cp, sp, cr, sr = [g(x * RAD) for x in (y, p, r) for g in (A.cos, A.sin)]
    return [[cy * cp, cy * sp * sr - sy * cr, num(0) - cy * sp * cr - sy * sr],
            [sy * cp, sy * sp * sr + cy * cr, cy * sr - sy * sp * cr],
            [sp, num(0) - cp * sr, cp * cr]]


def orient(P, R, C, f, c):
    """Angles and rotation matrix of an orientation belong to each other."""
    if c == 'bvector' and f.n == 'rotate' and len(f.params) == 2:
        s = FSym(P, f, pointwise=False, inline=lambda g: False)
        a, b = [('loc', (p['d'],)) for p in f.params]
        turn, old = ('call', 'rotation', a), ('mem', b, '_vector')
        for _, v in forms(s, [('elem', s.end(('mem', THIS, '_vector')), (('num', k),)) for k in range(3)], entry):
            for k, n in enumerate(BODY):
                C.same(f'{c}|rotate|{n}', f, f'the {n} component of a body vector is not turned by the rotation of the host', v[k], total(var(('idx', turn, (('num', k), ('num', j)))) * var(('idx', old, (('num', j),))) for j in range(3)))
    if c != 'orientation' or f.kind == 'dtor':
        return
    s = FSym(P, f, pointwise=False, inline=lambda g: g is not f and g.cls == f.cls)
    if f.n in ('front', 'right', 'up') and not f.params:
        k = BODY.index(f.n)
        for t in result(f, s):
            for _, v in forms(s, [('elem', t, (('num', i),)) for i in range(3)], entry):
                for i, y in enumerate(v):
                    C.same(f'{c}|{f.n}', f, f'another vector than the column of the rotation matrix toward the {f.n} is returned', y, var(('idx', TURN, (('num', i), ('num', k)))))
        return
    end = [s.end(('mem', THIS, '_' + a)) for a in ANGLES]
    mat = s.end(TURN)
    if mat != TURN:
        ts = [('elem', mat, (('num', i), ('num', j))) for i in range(3) for j in range(3)]
        if any(t == ('nan',) or t[:2] == ('call', '__builtin_nanf') for t in end):
            if len(f.params) == 2:
                a, b = [('mem', ('loc', (p['d'],)), '_rotation') for p in f.params]
                for _, v in forms(s, ts, entry):
                    for k, y in enumerate(v):
                        C.same(f'{c}|{f.n}|product', f, 'the orientation of a child is not its own orientation turned by that of its host', y, total(var(('idx', a, (('num', k // 3), ('num', j)))) * var(('idx', b, (('num', j), ('num', k % 3)))) for j in range(3)))
            elif len(f.params) == 1 and 'orientation' in f.params[0]['t']:
                for _, v in forms(s, ts, entry):
                    for k, y in enumerate(v):
                        C.same(f'{c}|{f.n}|copy', f, 'a copy has another rotation', y, var(('idx', ('mem', ('loc', (f.params[0]['d'],)), '_rotation'), (('num', k // 3), ('num', k % 3)))))
        else:
            for _, v in forms(s, ts + end, entry):
                want = turned(*v[9:])
                for k, y in enumerate(v[:9]):
                    C.same(f'{c}|{f.n}|matrix|{k // 3}{k % 3}', f, f'element {k // 3},{k % 3} of the rotation matrix is not that of the angles', y, want[k // 3][k % 3])
                if f.n in ANGLES and len(f.params) == 1:
                    C.same(f'{c}|{f.n}|set', f, f'{f.n} is not set to its argument', v[9 + ANGLES.index(f.n)], param(f, 0))
                elif len(f.params) == 3:
                    for k, a in enumerate(ANGLES):
                        C.same(f'{c}|{f.n}|{a}', f, f'{a} is not set to its argument', v[9 + k], param(f, k))
    elif not f.params and f.kind != 'ctor':
        def known(seed):
            rnd = random.Random(seed)
            ang = [rnd.uniform(-x, x) for x in (170, 80, 170)]
            env = {('angle', a): x for a, x in zip(ANGLES, ang)}
            m = turned(*map(num, map(F, ang)))
            env.update({('idx', TURN, (('num', i), ('num', j))): value(m[i][j], {'seed': seed}) for i in range(3) for j in range(3)})
            env.update({('mem', THIS, '_' + a): x for a, x in zip(ANGLES, ang)})
            return env
        ret = result(f, s) if f.n in ANGLES else []
        for _, v in forms(s, end + ret, entry):
            for a, y in zip(ANGLES, v):
                if y.atoms() != {('mem', THIS, '_' + a)}:
                    C.same(f'{c}|angles|{a}', f, f'{a} is not that of the rotation matrix', y, var(('angle', a)), known=known)
            for y in v[3:]:
                C.same(f'{c}|{f.n}|get', f, f'another angle than {f.n} is returned', y, var(('angle', f.n)), known=known)


def total(xs):
    return sum(xs, num(0))


def entry(r, t):
    if t[0] == 'elem':
        u = index(t[1], t[2])
        return r(u) if u[0] != 'idx' or u[1] != t[1] else var(u)
    if t[0] == 'idx' and t[1][0] == 'call' and t[1][1] == 'rotation':
        return var(t)
    return leaf(r, t)


def motion(P, R, C, f, c):
    if c != 'platform_model':
        return
    # points that are made from an offset in the frame of the platform
    made = {}

    def hook(z, i, nd):
        if name(nd) in COMPS and len(nd.get('c', [])) == 1 and nd.get('recv', -1) >= 0 and 'wposition1' in z.fn.nodes[nd['recv']].get('t', ''):
            made.setdefault((z.tag, z.lv(nd['recv'])), {})[name(nd)] = (z, z.v(nd['c'][0]))
    s = FSym(P, f, pointwise=False, inline=lambda g: bool(g.cls) and (g.cls == f.cls and g.n not in ('update', 'update_internals') or short(g.cls) in ('bvector', 'wposition1', 'wvector1')) and (g.kind not in ('ctor', 'dtor') or short(g.cls) == 'bvector'), hook=hook)
    for (tag, l), m in made.items():
        if set(m) != set(COMPS):
            continue
        orient = s.end(('mem', THIS, '_orient'))
        for _, v in forms(s, [m[q][1] for q in COMPS] + [s.end(('mem', ('mem', THIS, '_position'), '.' + q)) for q in COMPS], unwrap):
            own = v[3:]
            offset = [(own[1] - v[1]) * own[0], (v[2] - own[2]) * own[0] * A.sin(own[1]), v[0] - own[0]]
            atoms = {a for o in offset for a in o.atoms()}
            ahead = any(a[0] == 'idx' and a[1][:2] == ('call', 'front') for a in atoms)
            child = next((a[1] for a in sorted(atoms, key=repr) if a[0] == 'idx' and a[1][0] == 'mem' and a[1][2] == '_vector'), None)
            if ahead:
                t = [k for k, p in enumerate(f.params) if 'time' in p['n'] or ty(p) in ('time_t', 'long')]
                if not t:
                    continue
                want = [var(('idx', ('call', 'front', orient), (('num', k),))) * member(THIS, '_speed') * (param(f, t[0]) - member(THIS, '_time')) for k in range(3)]
            elif child:
                turn = ('call', 'rotation', orient)
                want = [sum((var(('idx', turn, (('num', k), ('num', j)))) * var(('idx', child, (('num', j),))) for j in range(3)), num(0)) for k in range(3)]
            else:
                R.count('formulas not judged')
                continue
            known = {a for w in want + own for a in w.atoms()}
            if not all(a in known or a[0] == 'fn' or a[0] == 'mem' and roots(a) == THIS or a[0] == 'idx' and a[1][:2] == ('call', 'rotation') for a in atoms):
                R.count('formulas not judged')
                continue
            for n, x, w in zip(BODY, offset, want):
                C.same(f'{c}|{f.n}|{n}', f, f'the platform does not move by the {n} component of its {"velocity" if ahead else "position on the host"}', x, w)


def unwrap(r, t):
    if t[0] == 'idx':
        b = t[1]
        while b[0] == 'mem' and b[2] == '_vector' and b[1][0] == 'new' or b[0] == 'new' and len(b) == 3 and isinstance(b[2], tuple) and short(b[1]) == 'vector' and b[2][0] != 'num':
            b = b[1][2] if b[0] == 'mem' else b[2]
        u = element(b, t[2])
        if u != t:
            return r(u)
    return leaf(r, t)


def element(b, ix):
    """Element of a vector that is scaled by numbers."""
    if b[0] == 'op' and b[1] == '*':
        k = [x for x in (2, 3) if ahead_in(b[x])]
        if len(k) == 1:
            return b[:k[0]] + (element(b[k[0]], ix),) + b[k[0] + 1:]
    return index(b, ix)


def ahead_in(t):
    return t[:2] == ('call', 'front') or t[0] == 'op' and any(ahead_in(x) for x in t[2:] if isinstance(x, tuple))
