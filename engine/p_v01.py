"""V01: reverberation is built from the footprints of the eigenverbs."""
import random
import algebra as A
from algebra import *
from cfgutil import name
from fields import FSym
from models import short, leaf as mleaf
from p_t01 import Strict, THIS, RAD, MATH, values, param, total, roots, ty
from p_w04 import attempt
from result import Result

RULE = ('the power, size, duration and arrival of eigenverbs, of the overlap of two eigenverbs and of their contribution to the reverberation time series are reduced to '
        'exact normal forms of the quantities they are made from and must be identical, on every path, to the required relations')
EACH = ('exp', 'abs2', 'sqrt', 'abs', 'log', 'sin', 'cos')


def run(P):
    R = Result()
    R.rule = RULE
    C = Strict(R)
    for f in sorted(P.fns.values(), key=lambda f: (f.q, f.u)):
        if f.entry is None or not f.cls:
            continue
        verbs = [k for k, p in enumerate(f.params) if 'eigenverb_model' in p['t']]
        if len(verbs) == 2 and 'biverb' in f.cls:
            attempt(R, f, lambda: overlap(P, R, C, f, verbs))
        elif any('biverb_model' in p['t'] for p in f.params) and any('transmit_model' in p['t'] for p in f.params):
            attempt(R, f, lambda: series(P, R, C, f))
        elif short(f.cls) == 'wave_queue' and any('wvector1' in p['t'] for p in f.params) and sum('double' in p['t'] for p in f.params) >= 3:
            attempt(R, f, lambda: footprint(P, R, C, f))
    R.need(R.counts.get('identities', 0), 5, 'identities')
    return R


def records(P, f, **kw):
    """Evaluator of f and the values that it stores last in the members of a new object."""
    got = {}

    def on(s, l, v):
        if l[0] == 'mem' and l[1][0] == 'new' and v[0] != 'out':
            got[l[2]] = v
    s = FSym(P, f, pointwise=False, inline=lambda g: g.r.get('file') == f.r['file'] and not g.cls, onstore=on, **kw)
    return s, got


def of(f, k, m):
    return var(('mem', ('loc', (f.params[k]['d'],)), m))


# ------------------------------------------------------ overlap of footprints
def overlap(P, R, C, f, verbs):
    src = next((k for k in verbs if f.params[k]['n'].startswith(('src', 'source'))), verbs[0])
    rcv = next(k for k in verbs if k != src)
    s, got = records(P, f)
    away = ('range', )

    def leaf(r, t):
        if t[0] == 'call' and t[1] == 'gc_range':
            ends = {x[1] for x in t[2:4] if x[0] == 'mem' and x[2] == 'position'}
            return var(away) if ends == {('loc', (f.params[src]['d'],)), ('loc', (f.params[rcv]['d'],))} else None
        if t[0] == 'out':
            nd = f.nodes[t[1][-1]]
            if name(nd) == 'gc_range':
                return var(('bearing',))
        return mleaf(r, t)
    scatter = [k for k, p in enumerate(f.params) if 'vector<double>' in p['t']]
    ls, ws, lr, wr = of(f, src, 'length'), of(f, src, 'width'), of(f, rcv, 'length'), of(f, rcv, 'width')
    fields = [q for q in ('power', 'duration', 'travel_time') if q in got]
    for ch, v in forms(s, [got[q] for q in fields], leaf):
        a = dict(zip(fields, v))
        tilt = of(f, src, 'direction') - of(f, rcv, 'direction')
        sn, cs = A.sin(tilt), A.cos(tilt)
        # footprints in the frame whose second axis is the direction of the receiver eigenverb
        sxx, syy, sxy = ls * ls * sn * sn + ws * ws * cs * cs, ls * ls * cs * cs + ws * ws * sn * sn, (ls * ls - ws * ws) * sn * cs
        if 'power' in a and scatter:
            y = a['power']
            near = ('bearing',) not in y.atoms(True)
            b = (num(0) if near else var(('bearing',))) - of(f, rcv, 'direction')
            dx, dy = var(away) * A.sin(b), var(away) * A.cos(b)
            xx, yy = sxx + wr * wr, syy + lr * lr
            det = xx * yy - sxy * sxy
            q = (dx * dx * yy + dy * dy * xx - num(2) * dx * dy * sxy) / det
            want = of(f, src, 'power') * of(f, rcv, 'power') * param(f, scatter[0]) / num(8) * A.fn('exp', num(0) - q / num(2)) / A.sqrt(det)
            C.same(f'overlap|power|{"same place" if near else "apart"}', f, 'the power is not that of the overlap of both footprints', y, want)
        if 'duration' in a:
            ds = ls * ls * ws * ws
            ixx, iyy, ixy = syy / ds + num(1) / (wr * wr), sxx / ds + num(1) / (lr * lr), (num(0) - sxy) / ds
            along = ixx / (ixx * iyy - ixy * ixy)
            want = A.cos(of(f, rcv, 'grazing')) / of(f, rcv, 'sound_speed') * A.sqrt(along) / num(2)
            C.same('overlap|duration', f, 'the duration is not that of the overlap along the receiver eigenverb', a['duration'], want, known=positive)
        if 'travel_time' in a:
            C.same('overlap|travel_time', f, 'the travel time is not the sum of both', a['travel_time'], of(f, src, 'travel_time') + of(f, rcv, 'travel_time'))


def positive(seed):
    return {}


# ------------------------------------------------------------------ time series
def many(t):
    return isinstance(t, tuple) and (t[:2] in (('call', 'data'),) or t[0] == 'new' and 'vector' in t[1] and not t[1].endswith('bvector') or t[0] in ('op', 'call', 'new') and any(many(x) for x in t[1:]))


def at(t, ix):
    """Element ix of a vector valued term."""
    if t[0] == 'new' and 'vector_range' in t[1] and len(t) == 4 and t[3][0] == 'new' and len(t[3]) == 4:
        return at(t[2], ('op', '+', ix, t[3][2]))
    if t[0] == 'new' and 'vector' in t[1] and len(t) == 3 and isinstance(t[2], tuple) and t[2][0] not in ('num',):
        return at(t[2], ix)
    if t[0] == 'op':
        return t[:2] + tuple(at(x, ix) if many(x) else x for x in t[2:])
    if t[0] == 'call' and t[1] in EACH:
        return t[:2] + tuple(at(x, ix) for x in t[2:])
    if t[:2] == ('call', 'data') and len(t) == 3:
        return ('idx', t[2], (ix,))
    return ('idx', t, (ix,))


def series(P, R, C, f):
    verb = next(k for k, p in enumerate(f.params) if 'biverb_model' in p['t'])
    pulse = next(k for k, p in enumerate(f.params) if 'transmit_model' in p['t'])
    V, T = [('loc', (f.params[k]['d'],)) for k in (verb, pulse)]
    sums, beams, looks = [], {}, []

    def on(s, l, v):
        if l[0] == 'idx' and l[1][0] == 'mem' and l[1][1] == THIS and len(l[2]) == 2:
            sums.append((s, l, v))

    def hook(s, i, nd):
        n = name(nd)
        if n == 'beam_level' and nd.get('recv', -1) >= 0 and len(nd['c']) >= 4 and not s.up:
            r = s.v(nd['recv'])
            side = 'receiver' if 'rcv_beam' in repr(r) else 'source' if 'src_beam' in repr(r) else None
            l = s.lv(nd['c'][0]) if f.nodes[nd['c'][0]]['k'] in ('ref', 'mem') else s.v(nd['c'][0])
            beams[i] = (side, r, [s.load(('idx', ('mem', l, '_vector'), (('num', k),)), s.st) for k in range(3)], s.v(nd['c'][1]), s.v(nd['c'][3]))
        if n == 'find_index' and not s.up:
            looks.append((i, s.v(nd['c'][0])))
    s = FSym(P, f, pointwise=False, inline=lambda g: g.r.get('file') == f.r['file'] and not g.cls or g.cls and short(g.cls) == 'bvector', onstore=on, hook=hook)
    want_T = member(V, 'duration') + member(T, 'duration')
    delay = member(T, 'delay') + member(V, 'travel_time') + want_T

    def leaf(r, t):
        if t[0] == 'idx' and len(t[2]) == 1 and many(t[1]):
            u = at(t[1], t[2][0])
            if u != t:
                return r(u)
        if t[0] == 'idx' and len(t[2]) == 1 and t[1][0] in ('mem', 'deref') and t[1][2:] in (('_travel_times',), ('frequencies',), ('power',)):
            return A.fn('entry ' + t[1][2], r(t[2][0]))
        if t[:2] == ('call', 'increment') and len(t) == 4 and t[2][0] == 'mem' and t[2][2] == 'frequencies':
            i = r(t[3])
            return A.fn('entry frequencies', i + num(1)) - A.fn('entry frequencies', i)
        if t[0] == 'idx' and t[1][0] == 'out' and t[1][1][-1] in beams:
            return var(('level', beams[t[1][1][-1]][0]))
        return mleaf(r, t)
    for m in sorted({l[1][2] for _, l, v in sums}):
        start(P, R, f, m)
    # directions and steering
    for i, (side, r, arrival, freq, steer) in sorted(beams.items()):
        if side is None:
            R.count('formulas not judged')
            continue
        orient = ('call', 'rotation', ('mem', THIS, f'_{side}_orient'))
        de, az = member(V, f'{side}_de'), member(V, f'{side}_az')
        u = [A.cos(de) * A.cos(az), A.cos(de) * A.sin(az), A.sin(de)]
        for _, v in forms(s, arrival, turn):
            for k, y in enumerate(v):
                C.same(f'series|arrival|{side}', f, f'the direction in which the beam of the {side} is evaluated is not that of the eigenverb in the coordinates of its array', y,
                       total(var(('idx', orient, (('num', j), ('num', k)))) * u[j] for j in range(3)), loc=at_line(f, i))
        R.count('identities')
        keys = [x for x in r[2:]] if r[0] == 'call' else []
        if side == 'receiver' and steer[:2] == ('call', 'rcv_steering') and keys != list(steer[2:]):
            R.violation('series|steering', f'{f.short}: the beam and the steering belong to different receiver channels', at_line(f, i))
        if side == 'source' and steer[0] != 'loc' and steer[:2] == ('call', 'rcv_steering'):
            R.violation('series|steering', f'{f.short}: the source beam is steered like a receiver channel', at_line(f, i))
        if freq[0] == 'new' and freq[1].endswith('seq_linear') and freq[2] != ('mem', T, 'fcenter'):
            R.violation('series|frequency', f'{f.short}: the beam is not evaluated at the frequency of the pulse', at_line(f, i))
    # contributions
    done = set()
    for z, l, v in sums:
        for ch, (y, old, t) in forms(s, [v, ('idx', l[1], l[2]), l[2][1]], lambda r, x: olds(l, r, x) or leaf(r, x)):
            add = y - var(('old',))
            p = power(add)
            if p is None:
                R.count('formulas not judged')
                continue
            at_ = [arg(x) for x in add.atoms(True) if x[:2] == ('fn', 'entry _travel_times')]
            if len(at_) == 1 and not at_[0].same(t):
                R.count('identities')
                if {x for x in at_[0].atoms(True) if x[0] == 'phi'} == {x for x in t.atoms(True) if x[0] == 'phi'}:
                    R.violation('series|time', f'{f.short}: the contribution to one time is computed for another time', f.loc())
                else:
                    R.count('formulas not judged')
                continue
            tau = A.fn('entry _travel_times', t)
            w = (tau - delay) / want_T
            want = member(T, 'source_level') * var(('level', 'source')) * var(('level', 'receiver')) * p * member(T, 'duration') * A.fn('exp', num(0) - w * w / num(2)) / (want_T * A.sqrt(num(2) * var(PI)))
            C.same('series|contribution', f, 'the contribution is not the Gaussian with the power, pulse, beam levels and time of the eigenverb', add, want)
            done.add(len(p.atoms(True)))
    if not done:
        R.count('formulas not judged')
    # window
    for i, x in looks:
        for _, v in forms(s, [x], leaf):
            if not set(v[0].atoms(True)) <= set((delay + want_T).atoms(True)):
                R.count('formulas not judged')
                continue
            R.count('identities')
            ks = [value(v[0] - delay, e) / value(want_T, e) for e in ({a: random.Random(f'{n} {rank(a)}').uniform(0.3, 1.9) for a in (delay + want_T).atoms(True)} for n in range(6))]
            if min(map(abs, ks)) < 3 or min(ks) * max(ks) < 0:
                R.violation('series|window', f'{f.short}: the contribution is cut off at {min(ks, key=abs):.3g} durations from its peak', at_line(f, i))


def start(P, R, f, m):
    """The sums in member m start from zero."""
    for g in sorted(P.fns.values(), key=lambda g: (g.q, g.u)):
        if g.cls != f.cls or g.kind != 'ctor' or g.entry is None or len(g.params) == 1 and g.cls.split('::')[-1] in g.params[0]['t']:
            continue
        z = FSym(P, g, pointwise=False, inline=lambda h: h.cls == f.cls)
        here = ('mem', THIS, m)
        R.count('starting values')
        if z.end(here) != here:
            continue
        ini = next((x for x in g.r.get('inits', []) if x.get('f') == m), None)
        nd = g.nodes[ini['n']] if ini and ini.get('n', -1) >= 0 else {}
        while nd.get('k') in ('cast', 'tmp', 'bind') and nd.get('c'):
            nd = g.nodes[nd['c'][0]]
        sizes = [g.nodes[x].get('t', '') for x in nd.get('c', [])]
        whole = 'matrix' in nd.get('cls', '') and 'zero' not in nd.get('cls', '') and 'scalar' not in nd.get('cls', '')
        if not ini or whole and len(sizes) <= 2 and all(is_count(x) for x in sizes):
            R.violation('series|start', f'{g.short}: {m}, to which contributions are added, has no value to start from', g.loc())


def is_count(t):
    t = t.replace('const ', '').strip(' &')
    return t in ('size_t', 'unsigned long', 'int', 'long', 'unsigned int', 'std::size_t', 'size_type') or t.endswith('size_type')


def olds(l, r, t):
    """The sum so far."""
    x = t
    if t[0] == 'idx' and t[2] == l[2]:
        b = t[1]
        if b == l[1] or b[0] == 'phi' and b[2] == l[1]:
            return var(('old',))
    return None


def power(add):
    """Linear interpolation of the entries of the power that occur, None when it cannot be told."""
    es = [a for a in add.atoms(True) if a[:2] == ('fn', 'entry power')]
    if len(es) == 1:
        return var(es[0])
    if len(es) != 2:
        return None
    from algebra import Rat
    ix = [arg(e) for e in es]
    for a, b, i, j in ((es[0], es[1], ix[0], ix[1]), (es[1], es[0], ix[1], ix[0])):
        if (j - i).number() == 1:
            fr = [x for x in add.atoms(True) if x[0] == 'mem' and x[2] == 'fcenter']
            if not fr:
                return None
            x0, x1 = A.fn('entry frequencies', i), A.fn('entry frequencies', j)
            u = (var(fr[0]) - x0) / (x1 - x0)
            return var(a) + u * (var(b) - var(a))
    return None


def arg(e):
    return A.of(e[2])


def member(l, m):
    return var(('mem', l, m))


def turn(r, t):
    if t[0] == 'idx' and t[1][0] == 'call' and t[1][1] == 'rotation':
        return var(t)
    if t[0] == 'idx':
        u = peel(t[1], t[2])
        if u != t:
            return r(u)
    return mleaf(r, t)


def peel(b, ix):
    if b[0] == 'mem' and b[2] == '_vector' and b[1][0] == 'new' and len(b[1]) == 4 and b[1][1].endswith('bvector') and len(ix) == 1 and ix[0][0] == 'num':
        de, az = [('call', 'to_radians', x) for x in b[1][2:]]
        c = ('call', 'cos', de)
        return [('op', '*', c, ('call', 'cos', az)), ('op', '*', c, ('call', 'sin', az)), ('call', 'sin', de)][ix[0][1]]
    while b[0] == 'mem' and b[2] == '_vector' and b[1][0] == 'new' or b[0] == 'new' and len(b) == 3 and isinstance(b[2], tuple) and b[2][0] != 'num' and short(b[1]).startswith(('vector', 'c_vector')):
        b = b[1][2] if b[0] == 'mem' else b[2]
    return index(b, ix)


def at_line(f, i):
    return f'{f.r["file"]}:{f.nodes[i].get("l", f.r.get("line", 0))}'


# ------------------------------------------------------------ single eigenverb
def footprint(P, R, C, f):
    s, got = records(P, f)
    if 'length' not in got or 'width' not in got:
        return
    ints = [k for k, p in enumerate(f.params) if 'size_t' in p['t'] or ty(p) == 'unsigned long']
    doubles = [k for k, p in enumerate(f.params) if ty(p) == 'double']
    if len(ints) < 2:
        return
    row, col = [('loc', (f.params[k]['d'],)) for k in ints[:2]]
    graze = next((k for k in doubles if 'graz' in f.params[k]['n']), None)
    step = next((k for k in doubles if f.params[k]['n'] in ('dt', 'time', 'time_step', 'delta_t')), doubles[0])
    if graze is None:
        graze = doubles[1]

    def leaf(r, t):
        if t[0] in ('call', 'idx') and (t[1] == 'operator()' or t[0] == 'idx') and len(t) > 2:
            b, i = (t[2], t[3] if len(t) > 3 else None) if t[0] == 'call' else (t[1], t[2][0] if len(t[2]) == 1 else None)
            if b[0] == 'mem' and b[2] in ('_source_de', '_source_az') and i:
                return A.fn('ray ' + b[2], r(i))
        if t[:2] == ('call', 'increment') and len(t) == 4 and t[2][0] == 'mem' and t[2][2] in ('_source_de', '_source_az'):
            return A.fn('spacing ' + t[2][2], r(t[3]))
        if t[0] == 'call' and t[1] in ('source_de', 'source_az') and len(t) == 4 and t[2] == THIS:
            return A.fn('ray _' + t[1], r(t[3]))
        if t[0] == 'idx' and t[1][0] == 'mem' and t[2] == (row, col):
            return var(('ray', t[1][2].lstrip('_')))
        if t[0] == 'call' and len(t) == 5 and t[3:] == (row, col):
            return var(('ray', t[1]))
        if t[0] == 'mem' and t[2] == '_max_az':
            return var(('last',))
        return mleaf(r, t)
    fields = [q for q in ('length', 'width', 'power', 'travel_time') if q in got]
    for ch, v in forms(s, [got[q] for q in fields], leaf):
        a = dict(zip(fields, v))
        i, j = var(row), var(col)
        half = num(1) / num(2)
        used = {x for y in v for x in y.atoms(True)}
        wraps = ('fn', 'spacing _source_az', (var(('last',)) - num(1)).key()) in {(x[0], x[1], A.of(x[2]).key()) for x in used if x[:2] == ('fn', 'spacing _source_az')}
        before = (var(('last',)) if wraps else j) - num(1)
        up, down = (A.fn('ray _source_de', i) + half * A.fn('spacing _source_de', i)) * RAD, (A.fn('ray _source_de', i) - half * A.fn('spacing _source_de', i - num(1))) * RAD
        right, left = (A.fn('ray _source_az', j) + half * A.fn('spacing _source_az', j)) * RAD, (A.fn('ray _source_az', j) - half * A.fn('spacing _source_az', before)) * RAD
        area = (A.sin(up) - A.sin(down)) * (right - left)
        high = up - down
        path = var(('ray', 'path_length')) + var(('ray', 'sound_speed')) * param(f, step)
        sn = A.sin(A.fn('abs', param(f, graze)))
        plain = A.sin(param(f, graze))
        if not any(('fn', 'abs') == x[:2] for x in used):
            sn = plain
        want = {'length': half * path * high / sn, 'width': half * path * area / high, 'power': A.fn('pow', num(10), num(0) - var(('ray', 'attenuation')) / num(10)) * area / sn,
                'travel_time': var(('mem', THIS, '_time')) + param(f, step)}
        for q in fields:
            C.same(f'eigenverb|{q}|{"wrapped" if wraps else "plain"}', f, f'the {q.replace("_", " ")} of the eigenverb is not that of the footprint of its ray', a[q], want[q])
    if 'direction' in got:
        t = got['direction']
        inner = t[2] if t[:2] == ('call', 'to_radians') else t
        if inner[0] == 'out' and name(f.nodes[inner[1][-1]]) == 'direction':
            R.count('identities')
            if inner[2] != 1 or t == inner:
                R.violation('eigenverb|direction', f'{f.short}: the direction of the eigenverb is not the azimuth of its ray in radians', f.loc())
        else:
            R.count('formulas not judged')
