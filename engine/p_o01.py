"""O01: slopes and normals are those of the values."""
import algebra as A
from algebra import *
from fields import COMPS
from models import evaluate, leaf, short, NULL
from p_w04 import Check, attempt
from result import Result

RULE = ('the value and the slopes that a model returns are reduced to exact normal forms of the location; the slopes must be the derivatives of the value on every path, '
        'normals must have length one and be perpendicular to the slopes, and the value must not depend on whether the slopes are requested')


def run(P):
    R = Result()
    R.rule = RULE
    C = Check(R)
    for f in sorted(P.fns.values(), key=lambda f: (f.q, f.u)):
        if not f.cls or f.entry is None or f.kind in ('ctor', 'dtor'):
            continue
        if P.is_a(f.cls, 'usml::ocean::profile_model') and f.n == 'sound_speed' and len(f.params) == 3:
            attempt(R, f, lambda: speed(P, R, C, f))
        if P.is_a(f.cls, 'usml::ocean::boundary_model') and f.n == 'height' and len(f.params) == 3:
            attempt(R, f, lambda: height(P, R, C, f))
    return R


def place(s):
    l = s.arg(0)
    return [('mem', l, '.' + c) for c in COMPS]


def speed(P, R, C, f):
    s = evaluate(P, f)
    x = place(s)
    got = forms(s, [s.end(s.arg(1))] + [s.end(('mem', s.arg(2), '.' + c)) for c in COMPS], leaf)
    R.count('models')
    key = f.cls.split('::')[-1]
    for ch, v in got:
        for k, c in enumerate(COMPS):
            C.same(f'{key}|slope|{c}', f, f'the {c} component of the gradient is not the derivative of the sound speed', v[1 + k], derive(v[0], x[k]))
    alone(P, R, C, f, key, got)


def alone(P, R, C, f, key, got):
    """The value when the slopes are not requested."""
    z = evaluate(P, f, missing=(2,))
    without = forms(z, [z.end(z.arg(1))], leaf)
    a, b = {v[0].key() for ch, v in got}, {v[0].key() for ch, v in without}
    if a == b:
        R.count('identities')
        return
    for X, Y in ((without, got), (got, without)):
        for ch, v in X:
            if all(differ(v[0], w[0]) not in (None, 'agree', 'unknown') for _, w in Y):
                C.same(f'{key}|alone', f, 'the value changes when the slopes are not requested', v[0], Y[0][1][0])


def members(P, cls, R):
    """Forms of the members of cls after its constructors, and its parameters."""
    out = []
    for g in sorted(P.fns.values(), key=lambda g: g.u):
        if g.kind == 'ctor' and g.cls == cls and g.entry is not None and not (len(g.params) == 1 and short(g.params[0]['t'].rstrip('& ')) == short(cls)):
            out.append((g, evaluate(P, g)))
    return out


def states(c, own):
    """What the members are after constructor c, on each of its paths."""
    own = [a for a in own if a[0] == 'mem']
    try:
        for ch, v in forms(c, [c.end(a) for a in own], leaf):
            yield {a: y for a, y in zip(own, v) if not y.same(var(a))}
    except (TooBig, Unknown):
        yield {}


def height(P, R, C, f):
    s = evaluate(P, f)
    x = place(s)
    got = forms(s, [s.end(s.arg(1))] + [s.end(('mem', s.arg(2), '.' + c)) for c in COMPS], leaf)
    R.count('models')
    key = f'{f.cls.split("::")[-1]}|{short(f.params[0]["t"].rstrip("& "))}'
    alone(P, R, C, f, key, got)
    for ch, v in got:
        h, n = v[0], v[1:]
        st = A.sin(var(x[1]))
        level = [n[1] * h + n[0] * derive(h, x[1]), n[2] * h * st + n[0] * derive(h, x[2])]
        unit = n[0] * n[0] + n[1] * n[1] + n[2] * n[2]
        own = {a for e in n + [h] for a in e.atoms(True) if root(a) == ('this',)}
        if all(e.same(num(0)) for e in level) and unit.same(num(1)):
            R.count('identities', 3)
            continue
        made = members(P, f.cls, R)
        if not own or not made:
            made = [(f, None)]
        for env in [e for g, c in made for e in (states(c, own) if c else [{}])]:
            free = {b for y in env.values() for b in y.atoms(True) if b[0] == 'loc'}
            slopes = sorted((b for b in free if any(b in env[a].atoms(True) for a in env if a in n_atoms(n))), key=repr)
            ref = {b for y in env.values() for b in y.atoms(True) if b[0] == 'mem' and b[1][0] == 'loc' and b[2].lstrip('.') in COMPS}
            known = lambda seed: {b: 0.35 * (-1) ** (seed + k) / (1 + (seed * (k + 3)) % 7) for k, b in enumerate(slopes)}
            u = subst(unit, env)
            C.same(f'{key}|unit', f, 'the normal of the boundary does not have length one', u, num(1), known=known)
            here = {b: var(y) for b in ref or () for y in x if y[2].lstrip('.') == b[2].lstrip('.')}
            for k, e in enumerate(level):
                e = subst(subst(e, env), here)
                for j, b in enumerate(slopes if len(slopes) > 1 else [None]):
                    y = subst(e, {o: num(0) for o in slopes if o != b}) if b else e
                    C.same(f'{key}|normal|{COMPS[1 + k]}', f, f'the normal of the boundary is not perpendicular to its slope along {COMPS[1 + k]}', y, num(0), known=known)


def n_atoms(n):
    return {a for e in n for a in e.atoms(True)}


def root(a):
    while a[0] in ('mem', 'idx', '&'):
        a = a[1]
    return a
