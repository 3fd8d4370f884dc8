"""U02: quantities keep their meaning."""
from prog import strip_tpl
from cfgutil import *
from roles import *
from result import Result

RULE = ('role inference over the typed program: the physical role named by every parameter, member, accessor and variable follows values through copies, '
        'conversions, sums and helper variables, and must agree where a value is assigned, passed, returned or compared')


def run(P):
    R = Result()
    R.rule = RULE
    T = Roles(P)
    for f in sorted(P.fns.values(), key=lambda f: f.q):
        if f.entry is None:
            continue
        check(P, T, R, f)
    R.need(R.counts.get('arguments', 0), 300, 'arguments with a role')
    return R


def report(R, f, at, what, diff, kind):
    for d, x, y in diff:
        R.violation(f'{kind}|{what}|{f.n} {d}', f'{f.short} {kind}: {what} is {y}, its value is {x}', f.loc(at))


def check(P, T, R, f):
    for i, nd in enumerate(f.nodes):
        k = nd['k']
        if k == 'bin' and nd.get('asg') and nd['op'] in ('=', '+=', '-=') or k == 'call' and nd.get('op') in ('=', '+=', '-=') and nd.get('recv', -1) >= 0 and nd['c']:
            l, r = nd['c'] if k == 'bin' else (nd['recv'], nd['c'][0])
            a, b = T.role(f, r), T.role(f, l)
            if a and b:
                R.count('assignments')
                if all(f.nodes[x]['k'] == 'ref' for x in (l, strip_cast(f, r))):
                    a = {d: v for d, v in a.items() if d != 'limit'}      # one bound clamped to another
                dims = None if nd['op'] == '=' else COMPARE
                report(R, f, i, f.text(l)[:60], clash(a, b, dims), 'assigns')
        elif k == 'decl':
            for v in nd['vars']:
                if v.get('init', -1) >= 0:
                    a, b = T.role(f, v['init']), {d: x for d, x in role_of_name(v['n']).items() if x not in ('upper', 'lower')}
                    if a and b:
                        R.count('variables')
                        report(R, f, i, v['n'], clash(a, b), 'initialises')
        elif k in ('call', 'ctor') and not nd.get('op'):
            gs = P.targets(nd)
            if not gs or not nd.get('c'):
                continue
            g = gs[0]
            setter = g.cls and g.r.get('rt') == 'void' and k == 'call' and len(g.params) == len(nd['c']) and scalar_setter(P, g)
            for p, c in zip(g.params, nd['c']):
                a, b = T.role(f, c), role_of_name(p['n'])
                if setter and p is g.params[-1]:
                    b = {**role_of_name(g.n), **b}
                if a and b:
                    R.count('arguments')
                    R.sample(f'{f.short}: {f.text(c)[:50]} passed as {p["n"]} of {g.n}')
                    report(R, f, c, f'{p["n"]} of {g.n}', clash(a, b, argument=True), 'passes')
            # a vector or rotation of one side is only changed by values of that side
            if k == 'call' and nd.get('recv', -1) >= 0 and not g.const and f.nodes[nd['recv']]['k'] == 'ref' and f.nodes[nd['recv']].get('vk') == 'local':
                b = {d: v for d, v in T.role(f, nd['recv']).items() if d == 'side'}
                if b:
                    for c in nd['c']:
                        R.count('updates of one side')
                        report(R, f, c, f'{f.text(nd["recv"])} ({g.n})', clash(T.role(f, c), b), 'changes')
            # components of one direction or position come from one side
            parts = [(c, T.role(f, c), p) for p, c in zip(g.params, nd['c'])]
            parts = [(c, a) for c, a, p in parts if not {'side'} & set(role_of_name(p['n'])) and 'side' in a and ('angle' in a or 'coord' in a)]
            for c, a in parts[1:]:
                c0, a0 = parts[0]
                if a0.get('angle') != a.get('angle') or a0.get('coord') != a.get('coord'):
                    R.count('component pairs')
                    report(R, f, c, f'{g.n} with {f.text(c0)[:50]}', clash(a, {'side': a0['side']}), 'combines')
        elif k == 'ret' and nd.get('c'):
            a, b = T.role(f, nd['c'][0]), role_of_name(f.n)
            if a and b:
                R.count('returns')
                report(R, f, i, f.n, clash(a, b), 'returns')
        if k in ('bin', 'call') and nd.get('op') in ('==', '!=', '<', '>', '<=', '>=', '-', '+') and not nd.get('asg'):
            a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd['c']
            if len(a) == 2:
                x, y = T.role(f, a[0]), T.role(f, a[1])
                if x and y:
                    R.count('comparisons')
                    report(R, f, i, f.text(a[1])[:60], clash(x, y, COMPARE), 'compares ' + f.text(a[0])[:60])
    for it in f.inits:
        if it.get('f') and it.get('n', -1) >= 0:
            a, b = T.role(f, it['n']), role_of_name(it['f'])
            if a and b:
                R.count('members initialised')
                report(R, f, it['n'], it['f'], clash(a, b), 'initialises')


def scalar_setter(P, g):
    """Methods that store their last argument in the member they are named after."""
    if not g.params:
        return False
    d = g.params[-1]['d']
    return len(g.nodes) < 60 and any(nd['k'] == 'ref' and nd.get('d') == d for nd in g.nodes)


def strip_cast(f, i):
    while f.nodes[i]['k'] == 'cast':
        i = f.nodes[i]['c'][0]
    return i
