"""C05: new work supersedes old work of the same kind and can be superseded."""
import re
from prog import Prog, strip_tpl
from automaton import Tracker
from cfgutil import *
from result import Result, Broken
from p_c04 import is_launch, TASK

RULE = ('typestate over every path that constructs and launches a background task: the previous task of that kind, as remembered by the owning object, has been '
        'aborted or found absent before the new one is launched or remembered, and the object remembers the new task itself by the time the path ends')


def elem(t):
    m = re.match(r'(?:const )?std::(?:shared_ptr|weak_ptr|unique_ptr)<(.*)>', t.strip())
    return m.group(1).replace('const ', '') if m else None


class Launch(Tracker):
    """core = (handled, made, held, launched)"""

    def __init__(self, P, kind, holders, owner):
        super().__init__(P)
        self.kind, self.holders, self.owner = kind, holders, owner

    def is_holder(self, fn, i, depth=0):
        """Node denotes the task remembered by the object."""
        if depth > 6:
            return False
        nd = fn.nodes[i]
        while nd['k'] in ('cast', 'ctor') and len(nd.get('c', [])) == 1:
            i = nd['c'][0]
            nd = fn.nodes[i]
        if field_of(fn, i) in self.holders:
            return True
        if nd['k'] == 'call' and nd.get('recv', -1) >= 0 and (name(nd) in ('lock', 'get') or nd.get('op') in ('->', '*')):
            return self.is_holder(fn, nd['recv'], depth + 1)
        if nd['k'] == 'call' and not nd.get('c'):
            return any(returned_field(self.P, t) in self.holders for t in self.P.targets(nd))
        if nd['k'] == 'call' and name(nd) in ('move',) and nd['c']:
            return self.is_holder(fn, nd['c'][0], depth + 1)
        if nd['k'] == 'ref' and nd.get('vk') == 'local':
            v = fn.locals.get(nd['d'])
            return bool(v and v['init'] >= 0 and self.is_holder(fn, v['init'], depth + 1))
        return False

    def is_new(self, fn, i, depth=0):
        if depth > 6:
            return False
        nd = fn.nodes[i]
        while nd['k'] in ('cast', 'ctor') and len(nd.get('c', [])) == 1:
            i = nd['c'][0]
            nd = fn.nodes[i]
        if self.makes(nd):
            return True
        if nd['k'] == 'call' and name(nd) == 'move' and nd['c']:
            return self.is_new(fn, nd['c'][0], depth + 1)
        if nd['k'] == 'ref' and nd.get('vk') == 'local':
            v = fn.locals.get(nd['d'])
            if v and v['init'] >= 0 and self.is_new(fn, v['init'], depth + 1):
                return True
            for m in fn.nodes:
                if m['k'] == 'call' and m.get('op') == '=' and m.get('recv', -1) >= 0 and fn.nodes[m['recv']].get('d') == nd['d'] and m['c'] and self.is_new(fn, m['c'][0], depth + 1):
                    return True
        if nd['k'] == 'ref' and nd.get('vk') == 'param':
            return True
        return False

    def makes(self, nd):
        if nd['k'] == 'call' and name(nd) in ('make_shared', 'make_unique'):
            return elem(nd.get('t', '')) == self.kind
        if nd['k'] == 'new':
            return nd.get('ty', '').replace('const ', '') == self.kind
        if nd['k'] == 'call' and self.P.targets(nd):
            return elem(nd.get('t', '')) == self.kind and any(self.makes(x) for t in self.P.targets(nd) for x in t.nodes if x['k'] in ('call', 'new'))
        return False

    def follow(self, fn, e):
        if not isinstance(e, int):
            return ()
        nd = fn.nodes[e]
        if nd['k'] != 'call' or is_launch(self.P, fn, nd):
            return ()
        return [t for t in self.P.targets(nd) if t.cls == self.owner and not t.const and t.u != fn.u]

    def events(self, fn, e):
        if not isinstance(e, int):
            return
        nd = fn.nodes[e]
        if nd['k'] in ('call', 'new') and self.makes(nd):
            yield 'make'
        if nd['k'] == 'call':
            if name(nd) == 'abort' and nd.get('recv', -1) >= 0 and self.is_holder(fn, nd['recv']):
                yield 'handled'
            elif is_launch(self.P, fn, nd):
                yield 'launch_old' if self.is_holder(fn, nd['c'][0]) else 'launch'
            elif nd.get('recv', -1) >= 0 and field_of(fn, nd['recv']) in self.holders:
                if nd.get('op') == '=' and nd['c']:
                    yield 'hold' if self.is_new(fn, nd['c'][0]) else 'forget'
                elif name(nd) == 'reset':
                    yield 'hold' if nd['c'] and self.is_new(fn, nd['c'][0]) else 'forget'
                elif name(nd) == 'swap':
                    yield 'forget'

    def branch(self, fn, c, truth):
        c, truth = strip_not(fn, c, truth)
        nd = fn.nodes[c]
        a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd.get('c', [])
        p = None
        if nd.get('op') in ('==', '!=') and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if fn.nodes[y]['k'] == 'null':
                    p, isnull = x, (nd['op'] == '==') == truth
        elif nd['k'] == 'call' and name(nd) == 'operator bool':
            p, isnull = nd['recv'], not truth
        elif nd['k'] == 'call' and name(nd) == 'expired':
            p, isnull = nd['recv'], truth
        elif nd['k'] == 'call' and name(nd) == 'done' and nd.get('recv', -1) >= 0:
            p, isnull = nd['recv'], truth       # a finished task needs no abort
        if p is not None and isnull and self.is_holder(fn, p):
            yield 'handled'

    def step(self, s, sym, fn, e):
        handled, made, held, launched = s
        if sym == 'handled':
            return {(1, made, held, launched)}
        if sym == 'make':
            return {(handled, 1, held, launched)}
        if sym in ('hold', 'forget'):
            if not handled:
                self.error(fn, e, sym, f'the previous {self.kind.split("::")[-1]} is forgotten without having been aborted')
            return {(1, made, 1 if sym == 'hold' else 0, launched)}
        if sym in ('launch', 'launch_old'):
            if not made:
                if sym == 'launch_old':
                    self.error(fn, e, sym, f'an old {self.kind.split("::")[-1]} is launched again')
                return None
            if not handled:
                self.error(fn, e, sym, f'a new {self.kind.split("::")[-1]} is launched while the previous one has not been aborted')
            return {(handled, made, held, 1)}


def run(P):
    R = Result()
    R.rule = RULE
    T = P.cls_by_name(TASK)
    if T is None:
        raise Broken('task class not found')
    kinds = sorted(P.derived[T.name])
    R.need(len(kinds), 3, 'kinds of background tasks')
    n = 0
    for kind in kinds:
        # classes that construct tasks of this kind
        makers = {}
        A0 = Launch(P, kind, set(), None)
        for f in P.fns.values():
            if any(A0.makes(nd) for nd in f.nodes if nd['k'] in ('call', 'new') and not (nd['k'] == 'call' and P.targets(nd) and name(nd) not in ('make_shared', 'make_unique'))):
                makers.setdefault(f.cls, []).append(f)
        for cls, fs in makers.items():
            holders = set()
            for c in [cls] + P.all_bases(cls) if cls else []:
                C = P.classes.get(c)
                if C:
                    holders |= {(c, fn_) for fn_, fl in C.fields.items() if elem(fl['t']) == kind}
            R.sample(f'{kind}: launched by {cls}, remembered in {sorted(h[1] for h in holders)}')
            if not holders:
                for f in fs:
                    R.violation(f'{f.short}|holder', f'{f.short} launches a {kind.split("::")[-1]} that nothing remembers, so it cannot be aborted', f.loc())
                continue
            # entry points: methods of cls from which a maker is reached
            roots = set()
            st = list(fs)
            seen = set()
            while st:
                f = st.pop()
                if f.u in seen:
                    continue
                seen.add(f.u)
                up = [g for g, _ in P.callers.get(f.u, []) if g.cls == cls and g.u not in seen]
                if not up or f.r.get('acc', 0) == 0:
                    roots.add(f.u)
                st.extend(up)
            for u in sorted(roots):
                f = P.fns[u]
                A = Launch(P, kind, holders, cls)
                n += 1
                for handled, made, held, launched in A.cores(f, (0, 0, 0, 0)):
                    if launched and not held:
                        R.violation(f'{f.short}|{kind}|held', f'{f.short}: a launched {kind.split("::")[-1]} is not remembered, so it can never be aborted', f.loc())
                for (_, e, sym), (g, e2, msg) in A.errors.items():
                    R.violation(f'{g.short}|{msg}', f'{g.short}: {msg}', g.loc(e2))
                for k, v in A.hits.items():
                    R.count('events ' + k, v)
    R.count('launching functions', n)
    R.need(n, 3, 'launching functions')
    R.need(R.counts['events launch'] + R.counts['events launch_old'], 3, 'launches')
    return R


if __name__ == '__main__':
    R = run(Prog())
    print(dict(R.counts))
    for s in R.samples:
        print('  ', s)
    for k, (m, l) in R.violations.items():
        print(l, m, k)
