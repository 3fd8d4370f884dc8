"""W01: the wavefront marches with a consistent third order scheme."""
from fractions import Fraction as F
from march import *
from paths import *
from cfgutil import name
from result import Result

RULE = ('the integration formulas are extracted as exact linear forms and must satisfy the order conditions; every wavefront is typed with the time its position, '
        'direction and derivatives belong to, and each integration, step and reflection must combine wavefronts of the right times on every path')

STEP = ('mem', ('this',), '_time_step')
WAVE = ('mem', ('this',), '_wave')
LOCAL = {'path_length'}               # totals: added to, not replaced


def reaches(P, u, pred, memo):
    if u in memo:
        return memo[u]
    memo[u] = False
    f = P.fns[u]
    for i, nd in f.calls():
        for t in P.targets(nd):
            if pred(t) or reaches(P, t.u, pred, memo):
                memo[u] = True
                return True
    return False


def run(P):
    R = Result()
    R.rule = RULE
    integrators(P, R)
    refl, integ = {}, {}
    is_refl = lambda t: bool(t.cls) and t.cls.endswith('waveq3d::reflection_model') and t.kind not in ('ctor', 'dtor')
    for f in sorted(P.fns.values(), key=lambda f: f.q):
        if f.entry is None or not f.cls:
            continue
        if f.cls.endswith('waveq3d::wave_queue'):
            helper = lambda g: composed(P, g) or (g.cls == f.cls or not g.cls) and not reaches(P, g.u, is_refl, refl) and reaches(P, g.u, is_integ, integ) or 'lambda' in g.kind or bool(g.r.get('lambdaOf'))
            if f.kind == 'ctor':
                queue(P, R, f, helper, True, None)
            elif f.n == 'step':
                queue(P, R, f, helper, False, lambda nd: any(is_refl(t) or reaches(P, t.u, is_refl, refl) for t in P.targets(nd)))
        elif f.cls.endswith('waveq3d::reflection_model') and f.r.get('rt') == 'bool' and reaches(P, f.u, is_integ, integ):
            reflection(P, R, f)
    R.need(R.counts.get('integration calls', 0), 10, 'integration calls')
    R.need(R.counts.get('marching functions', 0), 2, 'marching functions')
    R.need(R.counts.get('reflections', 0), 1, 'reflections')
    return R


# ------------------------------------------------------------ order conditions
def integrators(P, R):
    forms = {}
    for f in sorted(P.fns.values(), key=lambda f: f.q):
        if is_integ(f) and f.entry is not None and not composed(P, f) and len([p for p in f.params if is_front(p['t'])]) > 1:
            I, _ = formulas(P, f)
            w = I.weights() if not I.bad else {}
            kinds = {k for k, c in w} or {'position'}
            for fld, c, m in I.bad:
                R.violation(f'form|{f.n}|{fld}|{c}|{m}', f'{f.short}: the {c} component of the new {fld} {m}', f.loc())
            if I.unknown or I.bad:
                R.count('integration formulas not in linear form', 1)
                continue
            for kind, c in [(k, c) for k in sorted(kinds) for c in COMPS]:
                x = w.get((kind, c))
                if x is None:
                    R.violation(f'missing|{f.n}|{c}', f'{f.short} does not compute the {c} component of the new {kind}', f.loc())
                    continue
                out, base, ws = x
                n = len(I.ys) - 1
                g = stage(ws, base, out)
                if g is None or ws[n]:
                    R.violation(f'places|{f.n}|{c}', f'{f.short}: the {c} component starts from wavefront {base} and fills wavefront {out}', f.loc())
                    continue
                forms.setdefault(g, []).append((f, c, ws[:n]))
                R.count('integration formulas')
                R.sample(f'{f.n} {c}: weights {", ".join(map(str, ws[:n]))}')
    one = {}
    for k, l in forms.items():
        by = {}
        for f, c, ws in l:
            by.setdefault(ws, []).append((f, c))
        best = max(by, key=lambda w: (len(by[w]), good(k, w)))
        one[k] = best
        for ws, fc in by.items():
            if ws != best:
                for f, c in fc:
                    R.violation(f'differs|{f.n}|{c}', f'{f.short}: the {c} component uses the weights {show(ws)}, the others {show(best)}', f.loc())
    f = {k: l[0][0] for k, l in forms.items()}
    if 'ab3' in one:
        w = one['ab3']
        for m, want in ((0, F(1)), (1, F(1, 2)), (2, F(1, 3))):
            R.count('order conditions')
            if sum(x * F(c) ** m for x, c in zip(w, (-2, -1, 0))) != want:
                R.violation(f'order|ab3|{m}', f'{f["ab3"].short}: the weights {show(w)} do not integrate t^{m} exactly', f['ab3'].loc())
    if all(k in one for k in ('rk1', 'rk2', 'rk3')):
        a2, a3, b = one['rk1'], one['rk2'], one['rk3']
        c = (F(0), sum(a2), sum(a3))
        conds = [('sum of the weights is 1', sum(b) == 1), ('weights integrate t exactly', sum(x * y for x, y in zip(b, c)) == F(1, 2)),
                 ('weights integrate t^2 exactly', sum(x * y * y for x, y in zip(b, c)) == F(1, 3)), ('estimates build on each other', b[2] * a3[1] * c[1] == F(1, 6))]
        for t, ok in conds:
            R.count('order conditions')
            if not ok:
                R.violation(f'order|rk3|{t}', f'{f["rk3"].short}: the weights {show(a2)}; {show(a3)}; {show(b)} are not of third order ({t})', f['rk3'].loc())


def good(k, w):
    return sum(w) == 1 if k in ('rk3', 'ab3') else 0


def show(ws):
    return '(' + ', '.join(map(str, ws)) + ')'


# ---------------------------------------------------------------- wave queue
def queue(P, R, f, helper, ctor, detects):
    seeds = {} if ctor else {('mem', ('this',), n): ('sym', n) for n in LEVEL}
    T = ('T', ())
    fronts = {} if ctor else {('sym', n): Front(*[('L', shift(T, (STEP, 1), k))] * 3) for n, k in LEVEL.items()}
    m = March(P, f, helper, seeds, fronts)
    if not any(e[0] == 'integ' for e in m.log):
        return
    R.count('marching functions')
    R.count('integration calls', sum(1 for e in m.log if e[0] == 'integ'))
    for k, msg, s, i in m.errors:
        R.violation(f'{f.n}|{k}', f'{s.fn.short} {msg}', s.fn.loc(i) if i >= 0 else f.loc())
    st = m.sym.ins.get(f.exit, {})
    obj, lev = {}, {}
    for n, k in LEVEL.items():
        o = st.get(('mem', ('this',), n))
        obj[n] = place(o) if o else None
        fr = m.fronts.get(obj[n])
        R.count('wavefronts typed')
        if fr is None:
            R.violation(f'{f.n}|lost|{n}', f'{f.short} leaves an unknown wavefront in {n}', f.loc())
            continue
        lev[n] = level(fr.pos)
        if lev[n] is None:
            R.violation(f'{f.n}|unset|{n}', f'{f.short} leaves {n} without a computed position', f.loc())
        elif fr.dir != fr.pos:
            R.violation(f'{f.n}|half|{n}', f'{f.short} leaves {n} with a position and a direction of different times', f.loc())
        elif fr.grad != fr.pos:
            R.violation(f'{f.n}|stale|{n}', f'{f.short} leaves {n} with derivatives that do not belong to its position', f.loc())
    os = [o for o in obj.values() if o]
    if len(set(os)) != len(os):
        R.violation(f'{f.n}|shared', f'{f.short} leaves one wavefront in two places of the queue', f.loc())
    if lev.get('_curr'):
        for n, k in LEVEL.items():
            if lev.get(n) and lev[n] != shift(lev['_curr'], (STEP, 1), k):
                R.violation(f'{f.n}|level|{n}', f'{f.short} leaves {n} at another time than {k:+d} time steps from the current wavefront', f.loc())
        if ctor:
            if lev['_curr'][1] or not (isinstance(lev['_curr'][0], tuple) and lev['_curr'][0] and lev['_curr'][0][0] in ('init', 'set')):
                R.violation(f'{f.n}|start', f'{f.short} does not start the current wavefront at the source', f.loc())
        elif lev['_curr'] != shift(T, (STEP, 1)):
            R.violation(f'{f.n}|advance', f'{f.short} does not advance the current wavefront by one time step', f.loc())
    if ctor:
        return
    t = st.get(('mem', ('this',), '_time'))
    want = {('op', '+', x, y) for x, y in ((STEP, ('mem', ('this',), '_time')), (('mem', ('this',), '_time'), STEP))}
    R.count('clock')
    if t not in want:
        R.violation(f'{f.n}|clock', f'{f.short} does not advance the time by one time step on every path', f.loc())
    # boundaries are searched while the pending wavefront is complete
    hits = [(s, i, fr) for e, s, i, fr in m.calls(detects)]
    R.count('boundary searches', len(hits))
    if not hits:
        R.violation(f'{f.n}|boundaries|none', f'{f.short} never looks for boundary reflections', f.loc())
    elif not covered(m.sym, events([(s, i) for s, i, _ in hits])):
        R.violation(f'{f.n}|boundaries|path', f'{f.short} has a path on which it does not look for boundary reflections', f.loc())
    for s, i, fr in hits:
        L = {n: x for n, x in fr.items() if x is not None}
        if len(L) < 4 or any(L[n] != shift(L['_curr'], (STEP, 1), k) for n, k in LEVEL.items()):
            R.violation(f'{f.n}|boundaries|{name(s.fn.nodes[i])}', f'{f.short} looks for boundary reflections while the wavefronts are not one step apart', s.fn.loc(i))


def events(l):
    hit = {}
    for s, i in l:
        hit.setdefault(id(s), set()).add(i)
    return hit


# ---------------------------------------------------------------- reflections
def members(P):
    """Members of a wavefront that belong to one ray and are computed from its position."""
    out = set()
    for c in [P.cls_by_name('wave_front')]:
        for fl in c.fields.values():
            t = fl.get('t', '')
            if fl['n'].startswith('_') or 'int' in t or 'bool' in t or '*' in t or 'vector' in t and 'wvector' not in t:
                continue
            if t.count('matrix<') > 1:
                continue
            out.add((fl['n'], 'wposition' in t or 'wvector' in t))
    return out


def reflection(P, R, f):
    ws = ('sym', 'step')
    seeds = {('mem', WAVE, n): ('sym', n) for n in LEVEL} | {('mem', WAVE, '_time_step'): ws}
    m = March(P, f, lambda g: composed(P, g) or g.cls == f.cls or not g.cls and reaches(P, g.u, lambda t: t.n in COMPS or bool(t.cls) and t.cls.endswith('ode_integ'), {}) or 'lambda' in g.kind or bool(g.r.get('lambdaOf')), seeds, {})
    ray = tuple(('loc', (p['d'],)) for p in f.params[:2])
    R.count('reflections')
    R.count('integration calls', sum(1 for e in m.log if e[0] == 'integ'))
    for k, msg, s, i in m.errors:
        R.violation(f'{f.n}|{k}', f'{s.fn.short} {msg}', s.fn.loc(i) if i >= 0 else f.loc())
    goals = true_returns(m.sym)
    if not goals:
        return
    mem = members(P)
    copies, hits, unknown = {}, {}, False
    step = None
    for e in m.log:
        if e[0] == 'copy':
            _, s, i, (o, fld, comp, idx, v, src) = e
            if o[0] != 'sym' or o[1] not in LEVEL:
                if o[0] == 'phi' or 'phi' in repr(o)[:40]:
                    unknown = True
                continue
            key = (o[1], fld, comp)
        elif e[0] == 'store' and e[3][0][0] == 'idx' and e[3][0][1][0] == 'mem':
            _, s, i, (l, v, src) = e
            o = place(l[1][1])
            if o[0] != 'sym' or o[1] not in LEVEL:
                continue
            fld, comp, idx = l[1][2], None, l[2]
            if (fld, False) not in mem:
                continue
            key = (o[1], fld, None)
        else:
            continue
        hits.setdefault(key, []).append((s, i))
        copies.setdefault(key, []).append((s, i, idx, v, src))
    if unknown:
        R.count('reflections not judged')
        return
    # what each ray of the wavefronts gets
    time = {}
    for n in LEVEL:
        for fld, vec in sorted(mem):
            for comp in (COMPS if vec else (None,)):
                key = (n, fld, comp)
                what = f'{comp + " of " if comp else ""}{fld}'
                R.count('reflected members')
                if key not in hits:
                    R.violation(f'{f.n}|miss|{n}|{fld}|{comp}', f'{f.short} does not restart {what} of the {n[1:]} wavefront', f.loc())
                    continue
                if not covered(m.sym, events(hits[key]), goals=goals):
                    R.violation(f'{f.n}|path|{n}|{fld}|{comp}', f'{f.short} has a path on which {what} of the {n[1:]} wavefront is not restarted', f.loc())
                for s, i, idx, v, src in copies[key]:
                    if tuple(idx) != ray:
                        R.violation(f'{f.n}|index|{n}|{fld}|{comp}', f'{s.fn.short} restarts {what} of another ray', s.fn.loc(i))
                    if src is None:
                        R.count('reflected members not judged')
                        continue
                    so, sf, sc, sidx, fr = src
                    if sf != fld or sc != comp:
                        R.violation(f'{f.n}|member|{n}|{fld}|{comp}', f'{s.fn.short} restarts {what} of the {n[1:]} wavefront from {sc + " of " if sc else ""}{sf}', s.fn.loc(i))
                    if so[0] == 'sym' and so[1] in LEVEL:
                        R.violation(f'{f.n}|old|{n}|{fld}|{comp}', f'{s.fn.short} keeps the old {what} of the {n[1:]} wavefront', s.fn.loc(i))
                        continue
                    if fr is None or fr.pos is None or fr.pos != fr.dir or fr.grad != fr.pos:
                        R.violation(f'{f.n}|partial|{n}', f'{s.fn.short} restarts the {n[1:]} wavefront from one that is only partly computed', s.fn.loc(i))
                        continue
                    if level(fr.pos):
                        time.setdefault(n, {}).setdefault(level(fr.pos), (s, i))
    for n, ls in time.items():
        if len(ls) > 1:
            s, i = list(ls.values())[1]
            R.violation(f'{f.n}|mixed|{n}', f'{s.fn.short} restarts the {n[1:]} wavefront with values of different times', s.fn.loc(i))
    if '_curr' not in time:
        return
    cur = next(iter(time['_curr']))
    for n, k in LEVEL.items():
        if n in time and next(iter(time[n])) != shift(cur, (ws, 1), k):
            s, i = next(iter(time[n].values()))
            R.violation(f'{f.n}|level|{n}', f'{s.fn.short} restarts the {n[1:]} wavefront at another time than {k:+d} time steps from the current one', s.fn.loc(i))
    # the current wavefront lies the time of the collision before it
    hit = collision(m)
    if hit is not None:
        s, i = next(iter(time['_curr'].values()))
        R.count('collision times')
        if cur[1] != ((hit, -1),):
            R.violation(f'{f.n}|collision', f'{s.fn.short} does not restart the ray at the time of the collision', s.fn.loc(i))


def collision(m):
    """The time after the current wavefront at which the collision point was computed."""
    for e in m.log:
        if e[0] == 'call' and name(e[3]) == 'collision_location':
            s, i, nd = e[1], e[2], e[3]
            pt = nd.get('pt', [])
            for x, t in zip(nd['c'], pt):
                if t == 'double':
                    return s.v(x)
    return None
