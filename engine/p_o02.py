"""O02: the variants of a model for one location and for many agree."""
from algebra import *
from fields import COMPS, is_vec
from models import evaluate, leaf, short
from p_o01 import root
from p_w04 import Check, attempt
from result import Result

RULE = ('where a model has one variant for a single location and one for an array of locations, every output of both is reduced to an exact normal form of the location, '
        'the other arguments and the members; for one element of the array both must have the same forms on the same set of paths')


def run(P):
    R = Result()
    R.rule = RULE
    C = Check(R)
    pairs = {}
    for f in P.fns.values():
        if f.cls and 'usml::ocean::' in f.cls and f.entry is not None and f.kind not in ('ctor', 'dtor') and f.params:
            t = short(f.params[0]['t'].rstrip('& '))
            if t in ('wposition', 'wposition1'):
                pairs.setdefault((f.cls, f.n, len(f.params)), {}).setdefault(t, []).append(f)
    for (c, n, k), v in sorted(pairs.items()):
        if len(v) == 2 and all(len(x) == 1 for x in v.values()):
            many, one = v['wposition'][0], v['wposition1'][0]
            if outputs(many) and [j for j, _ in outputs(many)] == [j for j, _ in outputs(one)]:
                attempt(R, one, lambda: agree(P, R, C, many, one))
    R.need(R.counts.get('pairs', 0), 4, 'pairs of variants')
    return R


def outputs(f):
    return [(k, p) for k, p in enumerate(f.params) if p['t'].rstrip().endswith('*') and 'const' not in p['t'].split('*')[0]]


def terms(f, s):
    out, what = [], []
    for k, p in outputs(f):
        l = s.arg(k)
        for c in COMPS if is_vec(p['t'].rstrip('* ')) else [None]:
            out.append(s.end(('mem', l, '.' + c) if c else l))
            what.append((k, c))
    return out, what


def named(f):
    """Leaf that names parameters by their position."""
    pos = {p['d']: k for k, p in enumerate(f.params)}

    def rename(t):
        if not isinstance(t, tuple):
            return t
        if t[0] == 'loc' and len(t) == 2 and len(t[1]) == 1 and t[1][0] in pos:
            return ('arg', pos[t[1][0]])
        if t[0] == 'loc' and t[1][0] == 'obj':
            return ('arg', pos.get(t[1][1]))
        if t[0] == 'idx' and t[1][0] in ('loc',) and t[1][1][0] in pos and len(t[2]) == 2:
            return ('arg', pos[t[1][1][0]])
        return tuple(rename(x) for x in t)

    def go(r, t):
        x = leaf(r, t)
        if x is not None:
            return x
        if t[0] in ('loc', 'mem', 'idx', 'call'):
            y = rename(t)
            if y != t and t[0] != 'call':
                return var(y)
            if t[0] == 'call' and y != t:
                z = r.function(t)
                return z if z is not None else var(y)
        return None
    return go


def agree(P, R, C, many, one):
    key = f'{many.cls.split("::")[-1]}::{many.n}'
    opt = [k for k, p in outputs(one) if k > outputs(one)[0][0]]
    for missing in [()] + ([tuple(opt)] if opt else []):
        got = []
        for f in (many, one):
            s = evaluate(P, f, missing=missing)
            ts, what = terms(f, s)
            keep = [j for j, (k, c) in enumerate(what) if k not in missing]
            got.append((forms(s, [ts[j] for j in keep], named(f)), [what[j] for j in keep]))
        (a, what), (b, _) = got
        if any(x[0] in ('sym', 'call') or x[0] == 'mem' and root(x)[0] in ('sym', 'out') or x[0] == 'out' for _, v in a + b for y in v for x in y.atoms(True) if x[0] != 'call' or 'data' not in x[1]):
            R.count('pairs not judged')
            return
        R.count('pairs', 0 if missing else 1)
        for j, (k, c) in enumerate(what):
            A_, B_ = [v[j] for _, v in a], [v[j] for _, v in b]
            label = many.params[k]['n'] + (f'.{c}' if c else '')
            R.count('outputs compared')
            for X, Y, f, g in ((A_, B_, many, one), (B_, A_, one, many)):
                for x in X:
                    if all(differ(x, y) not in (None, 'agree', 'unknown') for y in Y):
                        d = differ(x, Y[0])
                        R.violation(f'{key}|{label}', f'{one.short}: {label} for one location is not the value that the variant for many locations gives: {d[1]:.6g} and {d[2]:.6g} at a sample point', f.loc())
