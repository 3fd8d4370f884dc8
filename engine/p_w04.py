"""W04: the formulas of ray propagation are the documented ones."""
from fractions import Fraction as F
from algebra import *
import algebra as A
from fields import FSym, COMPS, is_vec, getter, inside
from march import is_integ, is_front, LEVEL
from p_w01 import reaches
from cfgutil import name
from result import Result

RULE = ('every formula is reduced to an exact normal form over the components of positions, directions and sound speed and must be identical to the one required, '
        'on every path; a difference is only reported together with a point at which the two formulas have different values')
THIS = ('this',)
WAVE = 'waveq3d::'


class Check:
    def __init__(self, R):
        self.R = R

    def same(self, key, f, what, got, want, loc=None, known=None):
        """One identity; True when it holds."""
        d = differ(got, want, known=known)
        if d == 'unknown':
            self.R.count('formulas not judged')
            return True
        self.R.count('identities')
        if d in (None, 'agree'):
            if d == 'agree':
                self.R.count('identities that hold at all sampled points')
            return True
        self.R.violation(key, f'{f.short}: {what}: the formula gives {d[1]:.6g} instead of {d[2]:.6g} at a sample point', loc or f.loc())
        return False


def run(P):
    R = Result()
    R.rule = RULE
    C = Check(R)
    byclass = {}
    for f in sorted(P.fns.values(), key=lambda f: (f.q, f.u)):
        if f.cls and WAVE in f.cls and f.entry is not None:
            byclass.setdefault(f.cls.split('::')[-1], []).append(f)
    tay = {f.u: t for f in byclass.get('wave_queue', []) for t in [taylor_params(f)] if t}
    for c, judge in (('wave_front', front), ('ode_integ', travelled), ('reflection_model', reflect)):
        for f in byclass.get(c, []):
            attempt(R, f, lambda f=f: judge(P, R, C, f))
    solver = {}
    for f in byclass.get('wave_queue', []):
        if f.u in tay:
            attempt(R, f, lambda: taylor(P, R, C, f, tay[f.u]))
        else:
            attempt(R, f, lambda: collision(P, R, C, f))
            attempt(R, f, lambda: offsets(P, R, C, f, tay, solver))
    for f in byclass.get('wave_queue', []):
        if f.u not in tay:
            attempt(R, f, lambda: eigenray(P, R, C, f, tay, solver))
    R.need(R.counts.get('identities', 0), 10, 'identities')
    return R


def attempt(R, f, go):
    try:
        go()
    except (TooBig, Unknown):
        R.count('formulas not judged')


def vec(s, l):
    return [s.load(('mem', l, '.' + c), s.ins.get(s.fn.exit, {})) for c in COMPS]


# ------------------------------------------------------------- wave equations
def front(P, R, C, f):
    if f.n != 'update' and f.n != 'init_wave':
        return
    s = FSym(P, f, pointwise=True, inline=lambda g: g.cls == f.cls and g.kind not in ('ctor', 'dtor') or g.r.get('file') == f.r['file'] and not g.cls)
    m = lambda n: ('mem', THIS, n)
    if f.n == 'update':
        ts = [t for n in ('pos_gradient', 'ndir_gradient', 'position', 'ndirection', 'sound_gradient') for t in vec(s, m(n))] + [s.end(m('sound_speed'))]
        for ch, v in forms(s, ts):
            p, x, q, n, g, c = v[0:3], v[3:6], v[6:9], v[9:12], v[12:15], v[15]
            r, st, ct = q[0], A.sin(q[1]), A.cos(q[1])
            k, cot = c * c / r, ct / st
            want = [c * c * n[0], k * n[1], k * n[2] / st,
                    -(g[0] / c) + k * (n[1] * n[1] + n[2] * n[2]),
                    -(g[1] / (c * r)) - k * (n[0] * n[1] - n[2] * n[2] * cot),
                    -(g[2] / (c * r * st)) - k * n[2] * (n[0] + n[1] * cot)]
            for j, (got, w) in enumerate(zip(p + x, want)):
                C.same(f'{f.n}|{j}', f, f'the derivative of the {COMPS[j % 3]} component of the {"position" if j < 3 else "direction"} is not the documented one', got, w)
        return
    # start: unit vectors of elevation and azimuth, divided by the sound speed
    ix = {}

    def hook(z, i, nd):
        if name(nd) in COMPS and len(nd.get('c', [])) == 3:
            ix.setdefault(tuple(z.v(x) for x in nd['c'][:2]), i)
    s = FSym(P, f, pointwise=True, inline=lambda g: g.cls == f.cls or g.r.get('file') == f.r['file'] and not g.cls, hook=hook)
    seqs = [('loc', (p['d'],)) for p in f.params if 'seq_vector' in p['t']]
    pos = next((('loc', (p['d'],)) for p in f.params if 'wposition1' in p['t']), None)
    if len(seqs) != 2 or pos is None or not ix:
        R.count('formulas not judged')
        return
    for ch, v in forms(s, vec(s, m('ndirection')) + vec(s, m('position'))):
        own = [a for a in v[0].atoms() if a[0] != 'fn']
        for (row, col), i in sorted(ix.items(), key=repr):
            de, az = (var(('idx', q, (k,))) * num(F(1, 180)) * var(PI) for q, k in zip(seqs, (row, col)))
            if row[0] == 'num':
                continue
            want = [A.sin(de), -A.cos(de) * A.cos(az), A.cos(de) * A.sin(az)]
            speed = [a for a in own if a[0] == 'out' or a[0] == 'idx' and a[1][0] == 'out']
            c = var(speed[0]) if len(speed) == 1 else num(1)
            for j in range(3):
                C.same(f'{f.n}|{j}', f, f'the {COMPS[j]} component of the initial direction is not that of the ray at this elevation and azimuth divided by the sound speed', v[j] * c, want[j], f.loc(i))
            if len(speed) != 1:
                R.violation(f'{f.n}|speed', f'{f.short}: the initial direction is not divided by the sound speed at the source', f.loc())
            break
        for j in range(3):
            C.same(f'{f.n}|pos|{j}', f, f'the {COMPS[j]} component of the initial position is not that of the source', v[3 + j], var(('mem', pos, '.' + COMPS[j])))


# ------------------------------------------------------------ distance of a step
def travelled(P, R, C, f):
    ys = [k for k, p in enumerate(f.params) if is_front(p['t'])]
    if len(ys) < 2:
        return
    stored = []
    s = FSym(P, f, pointwise=True, inline=lambda g: g.r.get('file') == f.r['file'], onstore=lambda z, l, v: stored.append(l) if l[0] == 'mem' and l[2] == 'distance' else None)
    if not stored:
        return
    o = s.arg(ys[-1])
    if ('mem', o, 'distance') not in stored:
        return
    new = vec(s, ('mem', o, 'position'))
    # the wavefront the step starts from has coefficient one
    base = None
    for k in ys[:-1]:
        b = var(('mem', ('mem', s.arg(k), 'position'), '.rho'))
        x = Reader(s)(new[0])
        if (x - b).atoms().isdisjoint(b.atoms()):
            if not b.atoms().isdisjoint(x.atoms()):
                base = s.arg(k)
    if base is None:
        R.count('formulas not judged')
        return
    for ch, v in forms(s, [s.end(('mem', o, 'distance'))] + new):
        old = [var(('mem', ('mem', base, 'position'), '.' + c)) for c in COMPS]
        d = [v[1 + j] - old[j] for j in range(3)]
        t, p = old[0] * d[1], old[0] * A.sin(old[1]) * d[2]
        C.same(f'{f.n}|distance', f, 'the square of the distance travelled is not that of the three components of the step', v[0] * v[0], d[0] * d[0] + t * t + p * p)


# ------------------------------------------------------- second order in time
def wave_members(s):
    return {n: ('mem', THIS, n) for n in LEVEL}


def collision(P, R, C, f):
    """Functions that estimate position, direction and speed between wavefronts."""
    ps = f.params
    ptr = lambda p, w: p['t'].rstrip().endswith('*') and w in p['t'] and 'const' not in p['t']
    pos = next((k for k, p in enumerate(ps) if ptr(p, 'wposition1')), None)
    dir = next((k for k, p in enumerate(ps) if ptr(p, 'wvector1')), None)
    spd = next((k for k, p in enumerate(ps) if ptr(p, 'double')), None)
    tim = next((k for k, p in enumerate(ps) if p['t'].split()[-1] == 'double'), None)
    ray = [k for k, p in enumerate(ps) if p['t'].split()[-1] in ('size_t', 'long')][:2]
    if None in (pos, dir, spd, tim) or len(ray) != 2 or f.r['rt'] != 'void':
        return
    s = FSym(P, f, inline=lambda g: g.cls == f.cls or g.r.get('file') == f.r['file'] and not g.cls or bool(g.r.get('lambdaOf')))
    ix = tuple(s.arg(k) for k in ray)
    t, h = var(s.arg(tim)), var(('mem', THIS, '_time_step'))
    ts = [s.end(s.arg(spd))] + vec(s, s.arg(pos)) + vec(s, s.arg(dir))
    src = [('sound_speed', None)] + [('position', c) for c in COMPS] + [('ndirection', c) for c in COMPS]
    for ch, v in forms(s, ts):
        for got, (m, c) in zip(v, src):
            at = lambda w: var(('idx', ('mem', ('mem', ('mem', THIS, w), m), '.' + c) if c else ('mem', ('mem', THIS, w), m), ix))
            a, b, n = at('_prev'), at('_curr'), at('_next')
            want = b + (n - a) / (num(2) * h) * t + (n + a - num(2) * b) / (h * h) * t * t * num(F(1, 2))
            what = f'the {c + " component of the " if c else ""}{m.replace("_", " ")} at the collision'
            C.same(f'{f.n}|{m}|{c}', f, f'{what} is not the second order estimate from the previous, current and next wavefront', got, want)


# --------------------------------------------------------------- Taylor series
def taylor_params(f):
    ref = [(k, p['t']) for k, p in enumerate(f.params)]
    out = lambda w, t: w in t and t.rstrip().endswith('&') and 'const' not in t
    h = [k for k, t in ref if out('c_matrix', t)]
    g = [k for k, t in ref if out('c_vector', t)]
    c = [k for k, t in ref if t.strip() == 'double &']
    d = [k for k, t in ref if 'c_vector' in t and 'const' in t]
    v = [k for k, t in ref if '[3]' in t]
    return (v[0], d[0], c[0], g[0], h[0]) if len(h) == len(g) == len(c) == len(d) == len(v) == 1 else None


def taylor(P, R, C, f, ps):
    """Exact for every quadratic function of time, elevation and azimuth."""
    v, d, c, g, h = ps
    s = FSym(P, f, inline=lambda x: x.cls == f.cls or x.r.get('file') == f.r['file'] and not x.cls or bool(x.r.get('lambdaOf')))
    I = lambda *k: tuple(('num', x) for x in k)
    D = [var(('idx', s.arg(d), I(k))) for k in range(3)]
    G = [var(('q', 'g', k)) for k in range(3)]
    H = [[var(('q', 'h', min(j, k), max(j, k))) for k in range(3)] for j in range(3)]
    c0 = var(('q', 'c'))

    def leaf(r, t):
        if t[0] == 'idx' and t[1][0] == 'idx' and t[1][1][0] == 'idx' and t[1][1][1] == s.arg(v):
            x = []
            for q, D_ in zip((t[1][1][2], t[1][2], t[2]), D):
                if q[0][0] != 'num':
                    return None
                x.append(num(q[0][1] - 1) * D_)
            y = c0
            for j in range(3):
                y = y + G[j] * x[j]
                for k in range(3):
                    y = y + num(F(1, 2)) * H[j][k] * x[j] * x[k]
            return y
        return None
    want = [('the value at the centre', s.end(s.arg(c)), c0)]
    want += [(f'the first derivative along axis {k}', index(s.end(s.arg(g)), I(k)), G[k]) for k in range(3)]
    want += [(f'the second derivative along axes {j} and {k}', index(s.end(s.arg(h)), I(j, k)), H[j][k]) for j in range(3) for k in range(3)]
    for ch, fs in forms(s, [w[1] for w in want], leaf):
        for got, (what, _, w) in zip(fs, want):
            C.same(f'{f.n}|{what}', f, f'{what} is wrong for a quadratic function', got, w)


def taylor_outs(P, s, tay, outs):
    def hook(z, i, nd):
        if nd.get('u') in tay:
            v, d, c, g, h = tay[nd['u']]
            outs.append((('out', z.tag + (i,), c), ('out', z.tag + (i,), g), ('out', z.tag + (i,), h)))
    return hook


def offsets(P, R, C, f, tay, solver):
    """Where a function solves H x = -g, the matrix it uses is the inverse of H."""
    if not any(nd.get('u') in tay for i, nd in f.calls()):
        return
    outs, found = [], []

    def onstore(z, l, v):
        if v[0] == 'call' and v[1] == 'prod' and len(v) == 4:
            found.append((z, z.cur, l, v))
    s = FSym(P, f, hook=taylor_outs(P, None, tay, outs), onstore=onstore, inline=lambda g: g.u not in tay and (g.cls == f.cls and not any(nd.get('u') in tay for i, nd in g.calls()) and g.n != 'collision_location' and 'listener' not in g.n or g.r.get('file') == f.r['file'] and not g.cls or bool(g.r.get('lambdaOf'))))
    I = lambda *k: tuple(('num', x) for x in k)
    for z, i, l, v in found:
        c, g, h = outs[-1]

        def leaf(r, t):
            if t[0] == 'idx' and t[1] == h and all(x[0] == 'num' for x in t[2]):
                a, b = sorted(x[1] for x in t[2])
                return var(('h', a, b))
            return None
        M, x = v[2], v[3]
        ts = [index(M, I(j, k)) for j in range(3) for k in range(3)] + [index(x, I(k)) for k in range(3)]
        for ch, fs in forms(s, ts, leaf):
            m = [fs[3 * j:3 * j + 3] for j in range(3)]
            y = fs[9:]
            used = {a for r_ in m for e in r_ for a in e.atoms(True)}
            if not any(a[0] == 'h' for a in used):
                continue
            block = [j for j in range(3) if any(m[j][k].n for k in range(3) if k != j)]
            if len(block) < 2:
                continue
            R.count('inverse matrices')
            H = [[var(('h', min(j, k), max(j, k))) for k in range(3)] for j in range(3)]
            det = H[0][0] * H[1][1] * H[2][2] + num(2) * H[0][1] * H[0][2] * H[1][2] - H[0][0] * H[1][2] * H[1][2] - H[1][1] * H[0][2] * H[0][2] - H[2][2] * H[0][1] * H[0][1]
            if len(block) == 2:
                a, b = block
                det = H[a][a] * H[b][b] - H[a][b] * H[a][b]
            D = fn('limited') if False else None
            lim = [a for a in used if a[0] == 'fn' and a[1] in ('max', 'min')]
            names = 'time, elevation and azimuth'.split(', ') if len(block) == 3 else []
            what = f'{len(block)} by {len(block)}'
            if len(lim) == 1:
                # a bounded determinant: one argument is the bound
                args = [of(k) for k in lim[0][2:]]
                D = var(lim[0])
                ds = [a for a in args if a.number() is None]
                if len(ds) == 1:
                    C.same(f'{f.n}|det{len(block)}', f, f'the determinant of the {what} matrix of second derivatives is wrong', ds[0], det, z.fn.loc(i))
            else:
                D = det
            for a in block:
                for b in block:
                    e = num(0)
                    for k in block:
                        e = e + m[a][k] * H[k][b]
                    want = det / D if a == b else num(0)
                    C.same(f'{f.n}|inverse{len(block)}|{a}{b}', f, f'the {what} matrix is not the inverse of the second derivatives (row {a}, column {b})', e, want, z.fn.loc(i))
            for a in block:
                C.same(f'{f.n}|rhs{len(block)}|{a}', f, f'the {what} system is not solved for the negative gradient', y[a], -Reader(s, ch, leaf)(index(g, I(a))), z.fn.loc(i))
            for p, prm in enumerate(f.params):
                if s.arg(p) == l:
                    solver[f.u] = p


# ------------------------------------------------------------------- eigenrays
def eigenray(P, R, C, f, tay, solver):
    at = [(i, nd) for i, nd in f.calls() if nd.get('u') in solver]
    if len(at) != 1:
        return
    outs, ends, offs = [], [], []
    th = taylor_outs(P, None, tay, outs)
    seen = {}

    def hook(z, i, nd):
        th(z, i, nd)
        if nd.get('u') in solver:
            offs.append(('out', z.tag + (i,), solver[nd['u']]))
        if 'listener' in name(nd):
            for o in {l[1] for l in seen if l[0] == 'mem'}:
                ends.append((i, o, dict(z.st)))

    def onstore(z, l, v):
        if l[0] == 'mem' and l[2] in ('travel_time', 'source_de', 'source_az', 'target_de', 'target_az', 'intensity'):
            seen[l] = z.cur
    skip = set(tay) | set(solver)
    s = FSym(P, f, hook=hook, onstore=onstore, inline=lambda g: g.u not in skip and (g.r.get('file') == f.r['file'] and not g.cls or bool(g.r.get('lambdaOf'))))
    if len(ends) != 1 or len(offs) != 1:
        R.count('formulas not judged')
        return
    i, o, st = ends[0]
    off = [var(('idx', offs[0], (('num', k),))) for k in range(3)]
    get = lambda n: s.load(('mem', o, n), st)
    ray = [s.arg(k) for k, p in enumerate(f.params) if p['t'].split()[-1] in ('size_t', 'long')][2:4]
    simple = [('travel_time', ('mem', THIS, '_time'), 0), ('source_de', ('idx', ('mem', THIS, '_source_de'), tuple(ray[:1])), 1), ('source_az', ('idx', ('mem', THIS, '_source_az'), tuple(ray[1:])), 2)]
    for n, base, k in simple:
        for ch, (v,) in forms(s, [get(n)]):
            C.same(f'{f.n}|{n}', f, f'the {n.replace("_", " ")} of an eigenray is not that of the nearest ray plus the offset to the target', v, var(base) + off[k])
    # second order estimates at the target
    for n in ('target_de', 'target_az'):
        for ch, (v,) in forms(s, [get(n)]):
            ok, best = False, None
            for c, g, h in outs:
                w = var(c)
                for j in range(3):
                    w = w + var(('idx', g, (('num', j),))) * off[j]
                    for k in range(3):
                        w = w + num(F(1, 2)) * off[j] * off[k] * var(('idx', h, (('num', j), ('num', k))))
                if c in v.atoms():
                    best = w
            if best is None:
                R.count('formulas not judged')
                continue
            C.same(f'{f.n}|{n}', f, f'the {n.replace("_", " ")} of an eigenray is not the second order estimate at the target', v, best)
    # losses between two wavefronts
    h = var(('mem', THIS, '_time_step'))
    for ch, (v,) in forms(s, [get('intensity')]):
        a = {w: ('idx', ('mem', ('mem', THIS, w), 'attenuation'), tuple(ray)) for w in LEVEL}
        k = {w: derive(v, a[w]) for w in LEVEL}
        tot, mom = num(0), num(0)
        for w in LEVEL:
            tot, mom = tot + k[w], mom + k[w] * num(LEVEL[w])
        C.same(f'{f.n}|weights', f, 'the attenuations of the wavefronts around an eigenray do not have weights that add up to one', tot, num(1))
        C.same(f'{f.n}|interpolation', f, 'the attenuation of an eigenray is not interpolated at its travel time', mom, off[0] / h)


# ---------------------------------------------------------------- reflections
def reflect(P, R, C, f):
    ends = lambda g: g.cls == f.cls and any('wposition1' in p['t'] for p in g.params) and any('wvector1' in p['t'] and '*' not in p['t'] for p in g.params) and reaches(P, g.u, is_integ, {})
    if f.r['rt'] != 'bool':
        return
    at, hit, heights = [], [], []

    def hook(z, i, nd):
        ts = P.targets(nd)
        pt = nd.get('pt', [])
        if any(ends(g) for g in ts[:1]):
            k = next(j for j, t in enumerate(pt) if 'wvector1' in t)
            q = next(j for j, t in enumerate(pt) if 'wposition1' in t)
            lv = lambda j: z.lv(nd['c'][j])
            at.append((z, i, [z.load(('mem', lv(k), '.' + c), z.st) for c in COMPS], [z.load(('mem', lv(q), '.' + c), z.st) for c in COMPS],
                       [z.load(('mem', n, '.' + c), z.st) for n in heights[-1:] for c in COMPS]))
        elif name(nd) == 'collision_location':
            o = lambda w: next((('out', z.tag + (i,), j) for j, t in enumerate(pt) if w in t and t.rstrip().endswith('*')), None)
            hit.append((o('wposition1'), o('wvector1'), o('double')))
        elif any('wvector1' in t and t.rstrip().endswith('*') and 'const' not in t for t in pt) and any('wposition1' in t for t in pt):
            j = next(j for j, t in enumerate(pt) if 'wvector1' in t and t.rstrip().endswith('*'))
            v = z.v(nd['c'][j])
            if v[0] == '&':
                heights.append(v[1])
    s = FSym(P, f, hook=hook, inline=lambda g: g.cls == f.cls and not ends(g) or g.r.get('file') == f.r['file'] and not g.cls or bool(g.r.get('lambdaOf')))
    if len(at) != 1 or len(hit) != 1 or None in hit[0]:
        R.count('formulas not judged')
        return
    z, i, d, q, n = at[0]
    pos, dir, spd = hit[0]
    I = [var(('mem', dir, '.' + c)) for c in COMPS]
    c = var(spd)
    law, alts = 0, 0
    R.count('reflection laws')
    bound = lambda r, t: r(t[2 + r.pick(('bound', t), (0, 1), None)]) if t[0] == 'call' and t[1] in ('min', 'max') and len(t) == 4 else None
    for ch, v in forms(s, d + q + (n or [('num', 1), ('num', 0), ('num', 0)]), bound):
        D, X, N = v[:3], v[3:6], v[6:]
        alts += 1
        loc = z.fn.loc(i)
        for j in range(3):
            C.same(f'{f.n}|point|{j}', f, f'the reflected ray does not start at the point of collision ({COMPS[j]})', X[j], var(('mem', pos, '.' + COMPS[j])), loc)
        if n and not all(x.d == ONE and len(x.n) == 1 and len(x.atoms()) == 1 for x in N):
            C.same(f'{f.n}|unit', f, 'the normal at which the ray is mirrored does not have length one', dot(N, N), num(1), loc)
        triple = dot(D, cross(I, N))
        C.same(f'{f.n}|plane', f, 'the reflected direction does not lie in the plane of the incident direction and the normal', triple, num(0), loc)
        dd = dot(D, D)
        if differ(dd, dot(I, I)) not in (None, 'agree'):
            C.same(f'{f.n}|length', f, 'the reflected direction does not have the length of a direction at the point of collision', dd * c * c, num(1), loc)
        k = num(2) * dot(N, I)
        M = [I[j] - k * N[j] for j in range(3)]
        x = cross(D, M)
        if all(differ(e, num(0)) in (None, 'agree') for e in x) and ahead(dot(D, M), var_atom(c)):
            law += 1
    if alts and not law:
        R.violation(f'{f.n}|law', f'{f.short}: the direction is not mirrored at the boundary on any path', z.fn.loc(i))


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def var_atom(x):
    return next(iter(x.atoms()))


def ahead(x, c):
    """Positive at every sampled point where the speed c is."""
    good = 0
    for seed in range(60):
        try:
            v = value(x, {'seed': seed, c: 1.0 + seed / 7})
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if v < 0:
            return False
        good += v > 0
        if good > 6:
            break
    return good > 0
