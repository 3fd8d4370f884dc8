"""W03: the history of each ray is carried along."""
from march import *
from paths import *
from cfgutil import name
from symterm import Sym, walk
from result import Result
from p_w01 import reaches, events, WAVE

RULE = ('symbolic state of the wavefront queue on every path: counts, losses and path length of the new wavefront are those of the old one plus what was added, each reflection is '
        'counted once for its own boundary, and vertices and caustics are counted for exactly the sign changes that define them (abstract evaluation over signs)')

CARRIED = ('surface', 'bottom', 'upper', 'lower', 'caustic')
TOTALS = ('attenuation', 'phase')
HALF_PI = 1.5707963267948966
PI = 3.141592653589793


def run(P):
    R = Result()
    R.rule = RULE
    refl, integ = {}, {}
    is_refl = lambda t: bool(t.cls) and t.cls.endswith('waveq3d::reflection_model') and t.kind not in ('ctor', 'dtor')
    is_integ = lambda t: bool(t.cls) and t.cls.endswith('waveq3d::ode_integ')
    lam = lambda g: 'lambda' in g.kind or bool(g.r.get('lambdaOf')) or not g.cls and g.r.get('file', '').startswith('waveq3d')
    for f in sorted(P.fns.values(), key=lambda f: f.q):
        if f.entry is None or not f.cls:
            continue
        if f.cls.endswith('waveq3d::wave_queue'):
            if f.n == 'step':
                step(P, R, f, lambda g: not reaches(P, g.u, is_refl, refl) and (g.cls == f.cls and reaches(P, g.u, is_integ, integ) or touches(g)) or lam(g))
            if any(is_refl(t) and t.r.get('rt') == 'bool' for i, nd in f.calls() for t in P.targets(nd)):
                counted(P, R, f, lambda g: not reaches(P, g.u, is_refl, refl) and touches(g) or lam(g), is_refl)
            if reaches(P, f.u, is_refl, refl):
                fan(P, R, f, is_refl, refl)
            elif not reaches(P, f.u, is_integ, integ):
                vertices(P, R, f, lambda g: g.cls == f.cls or lam(g))
        elif f.cls.endswith('waveq3d::reflection_model') and f.r.get('rt') == 'bool' and reaches(P, f.u, is_integ, integ):
            losses(P, R, f, lambda g: g.cls == f.cls or lam(g))
    R.need(R.counts.get('carried quantities', 0), 4, 'carried quantities')
    R.need(R.counts.get('counted reflections', 0), 1, 'counted reflections')
    R.need(R.counts.get('sign cases', 0), 9, 'sign cases')
    return R


def touches(g):
    """Writes history members of a wavefront."""
    if g.kind in ('ctor', 'dtor') or g.n in ('update', 'init_wave', 'compute_profile', 'find_edges'):
        return False
    names = set(CARRIED + TOTALS + ('path_length',))
    return any(nd['k'] == 'mem' and nd['n'] in names for nd in g.nodes) and not any(name(nd) in ('add_eigenray', 'notify_eigenverb_listeners') for nd in g.nodes if nd['k'] == 'call')


def seeds_of(base):
    return {('mem', base, n): ('sym', n) for n in LEVEL}


def strip(t):
    """Values without versions."""
    t = place(t)
    if t[0] == 'mem':
        return ('mem', strip(t[1]), t[2])
    if t[0] == 'idx':
        return ('idx', strip(t[1]), tuple(strip(x) for x in t[2]))
    if t[0] == 'op':
        return t[:2] + tuple(strip(x) for x in t[2:])
    if t[0] == 'add':
        return ('add', strip(t[1]), t[2])
    return t


# -------------------------------------------------------------------- step
def step(P, R, f, helper):
    m = March(P, f, helper, seeds_of(('this',)), {})
    st = m.sym.ins.get(f.exit, {})
    cur, nxt = (place(st.get(('mem', ('this',), n), ('sym', n))) for n in ('_curr', '_next'))
    ups = [k for k, e in enumerate(m.log) if e[0] == 'update' and e[3] == nxt]
    published = [k for k, e in enumerate(m.log) if e[0] == 'call' and publishes(P, e[3])]

    def writes(n):
        return [(k, e) for k, e in enumerate(m.log) if e[0] == 'store' and strip(e[3][0]) == ('mem', nxt, n)]

    for n in CARRIED + TOTALS + ('path_length',):
        v = st.get(('mem', nxt, n))
        new, old = ('mem', nxt, n), ('mem', cur, n)
        R.count('carried quantities')
        if n in CARRIED:
            want = [old]
        elif n in TOTALS:
            want = [('op', '+', new, old), ('op', '+', old, new)]
        else:
            d = ('mem', nxt, 'distance')
            want = [('op', '+', d, old), ('op', '+', old, d)]
        w = writes(n)
        if not w:
            R.violation(f'{f.n}|lost|{n}', f'{f.short} does not carry the {n} of each ray to the new wavefront', f.loc())
            continue
        s, i = w[-1][1][1:3]
        if v is None or strip(v) not in want:
            R.violation(f'{f.n}|value|{n}', f'{f.short}: the {n} of the new wavefront is not that of the current one{"" if n in CARRIED else " plus the part of this step"} on every path', s.fn.loc(i))
        if (n in TOTALS or n == 'path_length') and ups and w[0][0] < ups[-1]:
            R.violation(f'{f.n}|early|{n}', f'{f.short} adds up the {n} before the new wavefront is computed', s.fn.loc(i))
        if published and published[0] < w[-1][0]:
            R.violation(f'{f.n}|late|{n}', f'{f.short} looks for eigenrays before the {n} of the new wavefront is complete', s.fn.loc(i))


def publishes(P, nd):
    memo = {}
    return any(reaches(P, t.u, lambda g: g.n in ('add_eigenray', 'check_eigenray_listeners', 'notify_eigenray_listeners'), memo) or t.n in ('add_eigenray', 'check_eigenray_listeners') for t in P.targets(nd))


# ------------------------------------------------------------- reflections
def boundary_of(P, g, memo=None, seen=()):
    """Which boundary of the ocean a reflection function asks for."""
    out = set()
    for i, nd in g.calls():
        q = nd.get('q', '')
        if q.endswith('ocean_model::surface') or q.endswith('ocean_model::bottom'):
            out.add(name(nd))
    return out


def increments(m, fld, skip=()):
    """[(log position, sym, node, front, index, added)] of stores to elements of a member."""
    out = []
    for k, e in enumerate(m.log):
        if e[0] != 'store':
            continue
        l, v = e[3][0], e[3][1]
        if l[0] == 'idx' and l[1][0] == 'mem' and l[1][2] == fld:
            o = place(l[1][1])
            if o[0] == 'sym' and o[1] in LEVEL:
                out.append((k, e[1], e[2], o[1], l[2], strip(v)))
    return out


def counted(P, R, f, helper, is_refl):
    m = March(P, f, helper, seeds_of(('this',)), {})
    for e in m.log:
        if e[0] != 'call':
            continue
        _, s, i, nd = e[:4]
        g = [t for t in P.targets(nd) if is_refl(t) and t.r.get('rt') == 'bool']
        if not g:
            continue
        b = boundary_of(P, g[0])
        if len(b) != 1:
            continue
        fld = b.pop()
        other = 'bottom' if fld == 'surface' else 'surface'
        R.count('counted reflections')
        idx = tuple(s.v(x) for x in nd['c'][:2])
        then = after_true(s, i)
        if then is None:
            R.violation(f'{f.n}|untested|{fld}', f'{f.short} does not use the outcome of the {fld} reflection', s.fn.loc(i))
            continue
        want = {n: [] for n in LEVEL}
        base = ('idx', ('mem', ('sym', '_next'), fld), idx)
        for k, s2, j, n, ix, v in increments(m, fld):
            ok = ix == idx and v == ('add', base, 1)
            if not ok:
                R.violation(f'{f.n}|wrong|{fld}|{n}', f'{s2.fn.short} sets the number of {fld} reflections of the {n[1:]} wavefront to something else than one more than before', s2.fn.loc(j))
                continue
            want[n].append((s2, j))
        for k, s2, j, n, ix, v in increments(m, other):
            R.violation(f'{f.n}|other|{fld}|{n}', f'{s2.fn.short} changes the number of {other} reflections at a {fld} reflection', s2.fn.loc(j))
        for n in LEVEL:
            R.count('reflection counters')
            if not want[n]:
                R.violation(f'{f.n}|miss|{fld}|{n}', f'{f.short} does not count the {fld} reflection in the {n[1:]} wavefront', s.fn.loc(i))
            elif not covered(s, events(want[n]), start=then):
                R.violation(f'{f.n}|path|{fld}|{n}', f'{f.short} has a path on which the {fld} reflection is not counted in the {n[1:]} wavefront', s.fn.loc(i))
            else:
                # not counted without a reflection
                other_side = after_true(s, i, False) or []
                for s2, j in want[n]:
                    if s2 is s and not only_after(s, i, then, other_side, j):
                        R.violation(f'{f.n}|always|{fld}|{n}', f'{f.short} counts a {fld} reflection that did not happen', s2.fn.loc(j))


def only_after(s, call, then, other, node):
    """Node is not reached without passing one of the blocks `then`."""
    f, b = s.fn, s.block_of(node)
    seen, st = set(), [f.entry]
    while st:
        x = st.pop()
        if x in seen or x < 0 or x in then:
            continue
        seen.add(x)
        st += f.blocks[x]['su']
    return b not in seen


def losses(P, R, f, helper):
    m = March(P, f, helper, seeds_of(WAVE), {})
    goals = true_returns(m.sym)
    if not goals:
        return
    args = {}
    for e in m.log:
        if e[0] == 'call' and name(e[3]) == 'reflect_loss':
            _, s, i, nd = e[:4]
            g = (P.targets(nd) or [None])[0]
            if g is None:
                continue
            for j, (p, x) in enumerate(zip(g.params, nd['c'])):
                if p['n'] in ('amplitude', 'phase') and s.v(x) != ('num', 0):
                    args[p['n']] = ('out', s.tag + (i,), j)
    for fld, what in (('attenuation', 'amplitude'), ('phase', 'phase')):
        evs = []
        R.count('losses')
        for e in m.log:
            if e[0] != 'store':
                continue
            _, s, i, (l, v, _x) = e
            o = l
            ix = []
            while o[0] == 'idx':
                ix.insert(0, o[2])
                o = o[1]
            if o[0] != 'mem' or o[2] != fld or place(o[1])[0] != 'sym' or place(o[1])[1] not in LEVEL:
                continue
            n = place(o[1])[1]
            if n != '_next':
                R.violation(f'{f.n}|front|{fld}', f'{s.fn.short} adds the loss of the reflection to the {n[1:]} wavefront', s.fn.loc(i))
                continue
            ray = ix[0] if ix else ()
            if len(ray) != 2 or ray[0] == ray[1]:
                R.violation(f'{f.n}|ray|{fld}', f'{s.fn.short} adds the loss of the reflection to another ray', s.fn.loc(i))
            d = minus(v, l)
            if d is None:
                R.violation(f'{f.n}|replace|{fld}', f'{s.fn.short} replaces the {fld} of the ray, the reflection adds to it', s.fn.loc(i))
                continue
            sign, x = d
            evs.append((s, i))
            if what in args:
                a = x
                if a[0] == 'idx' and len(ix) == 2 and a[2] != ix[1]:
                    R.violation(f'{f.n}|frequency|{fld}', f'{s.fn.short} adds the {what} of another frequency', s.fn.loc(i))
                b = origin(a)
                if sign < 0 or b is None or b != args[what]:
                    R.violation(f'{f.n}|source|{fld}', f'{s.fn.short} does not add the {what} of the reflection to the {fld}', s.fn.loc(i))
            elif fld == 'phase':
                if x[0] != 'num' or abs(abs(x[1]) - PI) > 1e-12:
                    R.violation(f'{f.n}|turn|{fld}', f'{s.fn.short} does not turn the phase by half a cycle at the surface', s.fn.loc(i))
            if len(ix) == 2 and not frequencies(s, ix[1][0]):
                R.violation(f'{f.n}|all|{fld}', f'{s.fn.short} does not add the {what} of the reflection for every frequency', s.fn.loc(i))
        if not evs:
            R.violation(f'{f.n}|none|{fld}', f'{f.short} does not add the {what} of the reflection to the {fld} of the ray', f.loc())
        elif not covered(m.sym, events(evs), goals=goals):
            R.violation(f'{f.n}|path|{fld}', f'{f.short} has a path on which the {what} of the reflection is lost', f.loc())


def origin(t):
    """Object a value was read from."""
    while t[0] in ('idx', 'mem'):
        t = t[1]
    return t


def minus(v, l):
    """(sign, x) when v is l + x or l - x."""
    v = strip(v)
    l = strip(l)
    if v[0] == 'add' and v[1] == l:
        return (1, ('num', v[2])) if v[2] >= 0 else (-1, ('num', -v[2]))
    if v[0] == 'op' and len(v) == 4:
        if v[1] == '+' and v[2] == l:
            return 1, v[3]
        if v[1] == '+' and v[3] == l:
            return 1, v[2]
        if v[1] == '-' and v[2] == l:
            return -1, v[3]
    return None


def frequencies(s, t):
    """Index t runs over a complete range, one by one, from 0."""
    if t[0] != 'phi':
        return False
    while s is not None and t not in s.phi:
        return True
    h = t[1][-1]
    ini = [v for p, v in s.phi[t].items() if (p, h) not in s.back]
    nxt = [v for p, v in s.phi[t].items() if (p, h) in s.back]
    if any(v != ('num', 0) for v in ini) or any(v != ('add', t, 1) for v in nxt) or not ini or not nxt:
        return False
    blk = s.fn.blocks[h]
    c = blk.get('lc', blk.get('tc'))
    v = s.val.get(c) if c is not None and c >= 0 else None
    if v is None:
        return True
    if v[0] == 'op' and v[1] in ('<', '!=') and t in (v[2], v[3]):
        b = v[3] if v[2] == t else v[2]
        return b[0] != 'add' and not (b[0] == 'op' and b[1] in ('-', '/')) and b[0] != 'num'
    return v[0] == 'op' and v[1] == '>' and v[3] == t and v[2][0] != 'add'


# ---------------------------------------------------- vertices and caustics
def sign_of(t, env):
    """-1, 0, 1 of a term under the signs env of its atoms, None when unknown."""
    if t in env:
        return env[t]
    if t[0] == 'num' and isinstance(t[1], (int, float)):
        return (t[1] > 0) - (t[1] < 0)
    if t[0] == 'op' and t[1] == '*' and len(t) == 4:
        a, b = sign_of(t[2], env), sign_of(t[3], env)
        return 0 if 0 in (a, b) else None if None in (a, b) else a * b
    if t[0] == 'op' and t[1] == '/' and len(t) == 4:
        a, b = sign_of(t[2], env), sign_of(t[3], env)
        return None if None in (a, b) else a * b
    if t[0] == 'op' and t[1] == 'neg':
        a = sign_of(t[2], env)
        return None if a is None else -a
    if t[0] == 'op' and t[1] == '-' and len(t) == 4:
        r = ('op', '-', t[3], t[2])
        if r in env:
            return -env[r]
    return None


def truth(t, env):
    if t in env and isinstance(env[t], bool):
        return env[t]
    if t[0] == 'num':
        return bool(t[1])
    if t[0] != 'op':
        return None
    o = t[1]
    if o == '!':
        a = truth(t[2], env)
        return None if a is None else not a
    if o in ('&&', '||'):
        a, b = truth(t[2], env), truth(t[3], env)
        if o == '&&':
            return False if False in (a, b) else None if None in (a, b) else True
        return True if True in (a, b) else None if None in (a, b) else False
    if o in ('<', '>', '<=', '>=', '==', '!='):
        for x, y in ((t[2], t[3]),):
            if (o in ('==', '!=')) and ('op', '==', x, y) in env:
                e = env[('op', '==', x, y)]
                return e if o == '==' else not e
            zx, zy = x == ('num', 0) or x == ('num', 0.0), y == ('num', 0) or y == ('num', 0.0)
            if zy:
                a, b = sign_of(x, env), 0
            elif zx:
                a, b = 0, sign_of(y, env)
            elif x in env and y in env and not isinstance(env[x], bool):
                a, b = env[x], env[y]
                if a == b and a != 0:
                    return None
            else:
                d = ('op', '-', x, y)
                r = ('op', '-', y, x)
                if d in env:
                    a, b = env[d], 0
                elif r in env:
                    a, b = -env[r], 0
                else:
                    return None
            if a is None or b is None:
                return None
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[o]
    if o == '?:':
        c = truth(t[2], env)
        return None if c is None else truth(t[3] if c else t[4], env)
    return None


def simulate(s, env, wanted, start=None):
    """Events of `wanted` (block -> names) that may / must happen under the
    abstract values env."""
    f = s.fn

    def ev(b):
        return wanted.get(b, frozenset())
    may, must = set(), None
    seen = set()
    joins = {t[1][-1] for t in s.phi}
    st = [(f.entry, frozenset(), None, ())]
    while st:
        b, got, prev, came = st.pop()
        if (b, got, prev, came) in seen or b < 0:
            continue
        seen.add((b, got, prev, came))
        got = got | ev(b)
        if b in joins:
            came = tuple(sorted({**dict(came), b: prev}.items()))
        if b == f.exit:
            may |= got
            must = got if must is None else must & got
            continue
        blk = f.blocks[b]
        su = blk['su']
        c = blk.get('lc', blk.get('tc'))
        v = None
        if len(su) == 2 and c is not None and c >= 0 and c in s.val:
            v = truth(taken(s, s.val[c], dict(came)), env)
        st += [(x, got, b, came) for x in ([su[0 if v else 1]] if v is not None else su)]
    return may, must or set()


def taken(s, t, came):
    """Value of a term on the path that came through the given blocks."""
    if t[0] == 'phi':
        v = s.phi.get(t, {}).get(came.get(t[1][-1]))
        return taken(s, v, came) if v is not None and v != t else t
    if t[0] == 'op':
        return t[:2] + tuple(taken(s, x, came) for x in t[2:])
    return t


def vertices(P, R, f, helper):
    """Counting of upper and lower vertices and of caustics."""
    writes = {nd['n'] for nd in f.nodes if nd['k'] == 'mem' and nd['n'] in ('upper', 'lower', 'caustic')}
    if not writes or f.r.get('rt') != 'void':
        return
    m = March(P, f, helper, seeds_of(('this',)), {})
    inc = {n: increments(m, n) for n in ('upper', 'lower', 'caustic')}
    if not any(x[5] == ('add', ('idx', ('mem', ('sym', x[3]), n), x[4]), 1) for n in inc for x in inc[n]):
        return
    for n in inc:
        for k, s, i, fr, ix, v in inc[n]:
            base = ('idx', ('mem', ('sym', fr), n), ix)
            if fr != '_next' or v != ('add', base, 1):
                R.violation(f'{f.n}|step|{n}', f'{s.fn.short} does not count the {"caustic" if n == "caustic" else n + " vertex"} once in the next wavefront', s.fn.loc(i))
    if any(x[1] is not m.sym for n in inc for x in inc[n]):
        R.count('vertex functions not judged')
        return
    s = m.sym
    wanted = {}
    for n in inc:
        for k, _, i, fr, ix, v in inc[n]:
            b = s.block_of(i)
            wanted[b] = wanted.get(b, frozenset()) | {(n, ix)}
    ups = {ix for n in ('upper', 'lower') for _, _, _, _, ix, _ in inc[n]}
    for ix in ups:
        L, N = (('call', 'rho', ('mem', ('sym', w), 'ndirection')) + ix for w in ('_curr', '_next'))
        s2 = Norm(s)
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                R.count('sign cases')
                may, must = simulate(s2, {L: a, N: b}, wanted)
                for n, yes in (('upper', a > 0 > b), ('lower', a < 0 < b)):
                    e = (n, ix)
                    how = f'{["down", "level", "up"][a + 1]} to {["down", "level", "up"][b + 1]}'
                    if yes and e not in must:
                        R.violation(f'{f.n}|vertex|{n}|{a}{b}', f'{f.short} does not count the {n} vertex of a ray that turns from {how}', f.loc())
                    elif not yes and e in may and (e in must or True):
                        R.violation(f'{f.n}|vertex|{n}|{a}{b}', f'{f.short} counts an {n} vertex of a ray that goes from {how}', f.loc())
        R.sample(f'{f.n}: 9 sign cases of the direction before and after the step')
    for k, _, i, fr, ix, v in inc['caustic']:
        caustic(R, f, m, s, i, ix, wanted)


class Norm:
    """The same function with versions removed from its values."""

    def __init__(self, s):
        self.fn, self.phi = s.fn, {k: {p: strip(v) for p, v in d.items()} for k, d in s.phi.items()}
        self.val = {i: strip(v) for i, v in s.val.items()}


def caustic(R, f, m, s, i, ix, wanted):
    """A caustic where the order in depth of two neighbouring rays turns over."""
    de = [x for x in ix]
    if len(de) != 2:
        return
    up, az = ix
    others = set()
    for k, v in s.val.items():
        for t in [strip(v)]:
            if t[0] == 'call' and t[1] == 'rho' and len(t) == 5 and t[2] == ('mem', ('sym', '_curr'), 'position') and t[4] == az and t[3] != up:
                others.add(t[3])
    if len(others) != 1:
        return
    lo = others.pop()
    pos = lambda w, d: ('call', 'rho', ('mem', ('sym', w), 'position'), d, az)
    C, N = (('op', '-', pos(w, up), pos(w, lo)) for w in ('_curr', '_next'))

    def eq(n):
        a, b = ('idx', ('mem', ('sym', '_next'), n), (up, az)), ('idx', ('mem', ('sym', '_next'), n), (lo, az))
        x, y = sorted((a, b), key=repr)
        return ('op', '==', x, y)
    s2 = Norm(s)
    e = ('caustic', ix)
    # conditions on the number of the ray alone: its neighbour exists or not
    free = set()
    for c in s2.val.values():
        if c[0] == 'op' and c[1] in ('<', '>', '<=', '>=', '!=', '==') and set(c[2:]) & {lo, up}:
            free.add(c)
    free = sorted(free, key=repr)[:4]
    worlds = [{c: bool(n >> k & 1) for k, c in enumerate(free)} for n in range(1 << len(free))]
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            for same in ((True, True), (True, False), (False, True)):
                R.count('sign cases')
                env = {C: a, N: b, eq('surface'): same[0], eq('bottom'): same[1]}
                out = [simulate(s2, env | w, wanted) for w in worlds]
                yes = a * b < 0 and all(same)
                if yes and not any(e in must for may, must in out):
                    R.violation(f'{f.n}|caustic|miss', f'{f.short} does not count the caustic of two neighbouring rays that cross', f.loc(i))
                elif not yes and any(e in may for may, must in out):
                    why = 'with different reflections' if not all(same) else 'that do not cross'
                    R.violation(f'{f.n}|caustic|extra|{why}', f'{f.short} counts a caustic of two neighbouring rays {why}', f.loc(i))
    # phase of every frequency
    evs = []
    for x in m.log:
        if x[0] == 'store' and x[3][0][0] == 'idx':
            _, q, j, (l, v, _s) = x
            o, idx = l, []
            while o[0] == 'idx':
                idx.insert(0, o[2])
                o = o[1]
            if o[0] == 'mem' and o[2] == 'phase' and place(o[1]) == ('sym', '_next'):
                R.count('caustic phases')
                d = minus(v, l)
                if not idx or tuple(idx[0]) != ix:
                    R.violation(f'{f.n}|caustic|ray', f'{q.fn.short} turns the phase of another ray than that of the caustic', q.fn.loc(j))
                elif d is None or d[0] > 0 or d[1][0] != 'num' or abs(d[1][1] - HALF_PI) > 1e-12:
                    R.violation(f'{f.n}|caustic|turn', f'{q.fn.short} does not turn the phase back by a quarter of a cycle at a caustic', q.fn.loc(j))
                elif len(idx) == 2 and not frequencies(q, idx[1][0]):
                    R.violation(f'{f.n}|caustic|all', f'{q.fn.short} does not turn the phase of every frequency at a caustic', q.fn.loc(j))
                else:
                    evs.append((q, j))
    b = s.block_of(i)
    if not evs:
        R.violation(f'{f.n}|caustic|phase', f'{f.short} does not turn the phase of the ray at a caustic', f.loc(i))
    elif not (covered(s, events(evs), start=[b]) or covered(s, events(evs), goals=[b])):
        R.violation(f'{f.n}|caustic|phase', f'{f.short} has a path on which the phase of the ray is not turned at a caustic', f.loc(i))


# ------------------------------------------------------------ whole wavefront
def fan(P, R, f, is_refl, memo):
    """Boundaries are searched for every ray of the wavefront."""
    calls = []

    def hook(s, i, nd):
        if len(nd.get('c', [])) == 2 and any(is_refl(t) and t.r.get('rt') == 'bool' or reaches(P, t.u, is_refl, memo) for t in P.targets(nd)):
            calls.append((s, i, [strip(s.v(x)) for x in nd['c']]))
    s = Sym(P, f, hook=hook)
    for q, i, ix in calls:
        if not all(t[0] == 'phi' for t in ix):
            continue
        for t, what in zip(ix, ('de', 'az')):
            R.count('searches of the fan')
            b = bound(q, t)
            if not frequencies(q, t) or b is not None and not any(what in n.split('_') for n in b):
                R.violation(f'{f.n}|fan|{what}', f'{f.short} does not look for reflections of every ray of the wavefront ({what})', f.loc(i))


def bound(s, t):
    """Names in the loop bound of index t."""
    blk = s.fn.blocks[t[1][-1]]
    c = blk.get('lc', blk.get('tc'))
    v = s.val.get(c) if c is not None and c >= 0 else None
    if v is None or v[0] != 'op':
        return None
    return {x for y in v[2:] if y != t for z in walk(y) for x in (z[1:3] if z[0] == 'call' else z[2:3] if z[0] == 'mem' else ()) if isinstance(x, str)}
