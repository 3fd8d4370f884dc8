"""C06: what a background task or a registration points to stays alive."""
import re
from prog import Prog, strip_tpl
from automaton import Automaton
from cfgutil import *
from result import Result, Broken
from p_c04 import TASK

RULE = ('ownership analysis of the type-checked program: every pointer or reference member of a background task is an owning pointer, or the task obtains ownership of '
        'the object at the start of run() before each use; every listener that a task registers with itself is owned by the task; every object that registers itself '
        'with another one in its constructor removes itself from the same one on every path of its destructor; every back-pointer to an object is cleared by its destructor')


def raw(t):
    t = t.strip()
    return t.endswith('*') or t.endswith('* const') or t.endswith('*const') or t.endswith('&') or bool(re.match(r'(const )?std::atomic<.*\*>$', t)) or 'std::reference_wrapper<' in t


def owning(t):
    return 'std::shared_ptr<' in t or 'std::unique_ptr<' in t


def param_of(fn, i, depth=0):
    """Index of the parameter an expression is a plain copy / get() of."""
    if i < 0 or depth > 8:
        return None
    nd = fn.nodes[i]
    k = nd['k']
    if k in ('cast', 'init', 'ctor') and len(nd.get('c', [])) == 1:
        return param_of(fn, nd['c'][0], depth + 1)
    if k == 'un' and nd['op'] in ('&', '*'):
        return param_of(fn, nd['c'][0], depth + 1)
    if k == 'call':
        if nd.get('recv', -1) >= 0 and (name(nd) in ('get', 'lock') or nd.get('op') in ('->', '*')):
            return param_of(fn, nd['recv'], depth + 1)
        if name(nd) in ('move', 'forward', 'addressof') and nd['c']:
            return param_of(fn, nd['c'][0], depth + 1)
        if name(nd).endswith('pointer_cast') and nd['c']:
            return param_of(fn, nd['c'][0], depth + 1)
    if k == 'ref' and nd.get('vk') == 'param':
        for j, p in enumerate(fn.params):
            if p['d'] == nd['d']:
                return j
    if k == 'ref' and nd.get('vk') == 'local':
        v = fn.locals.get(nd['d'])
        if v and v['init'] >= 0 and not reassigned(fn, nd['d']):
            return param_of(fn, v['init'], depth + 1)
    return None


def member_of(P, fn, i, depth=0):
    """(class, field) a pointer expression comes from: member, accessor, get()."""
    if i < 0 or depth > 8:
        return None
    nd = fn.nodes[i]
    k = nd['k']
    if k in ('cast', 'init', 'ctor') and len(nd.get('c', [])) == 1:
        return member_of(P, fn, nd['c'][0], depth + 1)
    if k == 'un' and nd['op'] in ('&', '*'):
        return member_of(P, fn, nd['c'][0], depth + 1)
    if k == 'mem':
        return (nd['cls'], nd['n'])
    if k == 'call':
        if nd.get('recv', -1) >= 0 and (name(nd) in ('get', 'lock', 'load') or nd.get('op') in ('->', '*')):
            return member_of(P, fn, nd['recv'], depth + 1)
        for t in P.targets(nd):
            if not t.params:
                r = accessor_field(P, t.cls, t.n)
                if r:
                    return r
    if k == 'ref' and nd.get('vk') == 'local':
        v = fn.locals.get(nd['d'])
        if v and v['init'] >= 0:
            return member_of(P, fn, v['init'], depth + 1)
    return None


def stored_params(P, f):
    """param index -> set of (class, field) in which constructor f keeps it."""
    out = {}
    for it in f.inits:
        if it.get('f') and it.get('n', -1) >= 0:
            k = param_of(f, it['n'])
            if k is not None:
                out.setdefault(k, set()).add((f.cls, it['f']))
        elif it.get('n', -1) >= 0:
            # base or delegated constructor
            nd = f.nodes[it['n']]
            if nd['k'] == 'ctor':
                for t in P.targets(nd):
                    sub = stored_params(P, t) if t.u != f.u else {}
                    for j, a in enumerate(nd.get('c', [])):
                        k = param_of(f, a)
                        if k is not None:
                            out.setdefault(k, set()).update(sub.get(j, ()))
    for i, nd in enumerate(f.nodes):
        l = r = -1
        if nd['k'] == 'bin' and nd.get('op') == '=':
            l, r = nd['c']
        elif nd['k'] == 'call' and nd.get('op') == '=' and nd.get('recv', -1) >= 0 and nd['c']:
            l, r = nd['recv'], nd['c'][0]
        if l >= 0:
            fl = field_of(f, l)
            k = param_of(f, r)
            if fl and k is not None:
                out.setdefault(k, set()).add(fl)
    return out


def is_register(nd):
    n = name(nd)
    return nd['k'] == 'call' and n.startswith('add_') and n.endswith('listener')


def is_unregister(nd):
    n = name(nd)
    return nd['k'] == 'call' and n.startswith('remove_') and n.endswith('listener')


class Held(Automaton):
    """A raw pointer of the task is used only after the task took ownership
    of the object for the rest of the function."""

    def __init__(self, P, fields, keepers, cls):
        super().__init__(P)
        self.fields, self.keepers, self.cls = fields, keepers, cls

    def follow(self, fn, e):
        if isinstance(e, int) and fn.nodes[e]['k'] == 'call' and 'u' in fn.nodes[e]:
            return [t for t in self.P.targets(fn.nodes[e]) if t.cls == self.cls]
        return ()

    def events(self, fn, e):
        if not isinstance(e, int):
            if 'dtor' in e:
                v = fn.locals.get(e['dtor'])
                if v and v['init'] >= 0 and member_of(self.P, fn, v['init']) in self.keepers and owning(v['t']):
                    yield 'drop'
            return
        nd = fn.nodes[e]
        if nd['k'] == 'decl':
            for v in nd['vars']:
                if v['init'] >= 0 and owning(v['t']) and not v['t'].endswith('&') and member_of(self.P, fn, v['init']) in self.keepers:
                    yield 'keep'
        if nd['k'] == 'mem' and (nd['cls'], nd['n']) in self.fields:
            yield 'use'

    def step(self, s, sym, fn, e):
        if sym == 'keep':
            return {1}
        if sym == 'drop':
            return {0}
        if sym == 'use' and s == 0:
            self.error(fn, e, sym, f'uses {fn.nodes[e]["n"]}, which the task does not own, without keeping the object alive')
        return None


class Removed(Automaton):
    def __init__(self, P, cls, want):
        super().__init__(P)
        self.cls, self.want = cls, want

    def follow(self, fn, e):
        if isinstance(e, int) and fn.nodes[e]['k'] == 'call' and 'u' in fn.nodes[e]:
            return [t for t in self.P.targets(fn.nodes[e]) if t.cls == self.cls]
        return ()

    def events(self, fn, e):
        if isinstance(e, int) and is_unregister(fn.nodes[e]):
            nd = fn.nodes[e]
            if nd['c'] and fn.nodes[nd['c'][0]]['k'] in ('this', 'cast', 'un') and any(fn.nodes[x]['k'] == 'this' for x in fn.walk(nd['c'][0])):
                if member_of(self.P, fn, nd['recv']) in self.want:
                    yield 'removed'

    def branch(self, fn, c, truth):
        # nothing to remove from an owner that does not exist
        c, truth = strip_not(fn, c, truth)
        nd = fn.nodes[c]
        a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd.get('c', [])
        if nd.get('op') in ('==', '!=') and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if fn.nodes[y]['k'] == 'null' and (nd['op'] == '==') == truth and member_of(self.P, fn, x) in self.want:
                    yield 'removed'

    def step(self, s, sym, fn, e):
        return {1}


def run(P):
    R = Result()
    R.rule = RULE
    T = P.cls_by_name(TASK)
    if T is None:
        raise Broken('task class not found')
    # members of tasks
    nt = 0
    for cls in sorted(P.derived[T.name]):
        C = P.classes[cls]
        nt += 1
        nonown = {(cls, n) for n, fl in C.fields.items() if raw(fl['t'])}
        R.count('task members', len(C.fields))
        keepers = {(cls, n) for n, fl in C.fields.items() if 'weak_ptr<' in fl['t'] or owning(fl['t'])}
        methods = [f for f in P.fns.values() if f.cls == cls and f.kind == 'method']
        runs = [f for f in methods if f.n == 'run']
        for fl in sorted(nonown):
            R.count('non-owning members')
            # keeper must be set up from the same object as the raw pointer
            good = set()
            for f in P.fns.values():
                if f.kind == 'ctor' and f.cls == cls and not f.r.get('cm'):
                    k = {j for j, s in stored_params(P, f).items() if fl in s}
                    for kp in keepers:
                        if feeds(P, f, kp, k):
                            good.add(kp)
            if not runs:
                continue
            A = Held(P, {fl}, good, cls)
            for f in runs:
                A.exits(f, 0)
            for (_, e, sym), (g, e2, msg) in A.errors.items():
                R.violation(f'{cls.replace("usml::", "")}|{fl[1]}', f'{g.short} {msg}', g.loc(e2))
        # registrations made by the task
        for f in P.fns.values():
            if f.cls != cls or f.kind != 'ctor':
                continue
            sp = stored_params(P, f)
            for i, nd in f.calls():
                if not is_register(nd):
                    continue
                R.count('registrations by tasks')
                k = param_of(f, nd['c'][0]) if nd['c'] else None
                own = [x for x in sp.get(k, ()) if x[0] in P.classes and owning(P.classes[x[0]].fields.get(x[1], {'t': ''})['t'])] if k is not None else []
                m = member_of(P, f, nd['c'][0]) if nd['c'] else None
                if m and m[0] in P.classes and owning(P.classes[m[0]].fields.get(m[1], {'t': ''})['t']):
                    own.append(m)
                R.sample(f'{f.short}: listener {f.text(nd["c"][0])} owned by {own}')
                for o in own:
                    for g in P.fns.values():
                        if g.cls == cls and g.kind not in ('ctor', 'dtor'):
                            for j, x in enumerate(g.nodes):
                                if x['k'] == 'call' and x.get('recv', -1) >= 0 and field_of(g, x['recv']) == o and (x.get('op') == '=' or name(x) in ('reset', 'swap', 'release')):
                                    R.violation(f'{g.short}|release|{o[1]}', f'{g.short} gives up {o[1]}, which is registered as a listener of the task', g.loc(j))
                if not own:
                    R.violation(f'{f.short}|listener|{f.text(nd["c"][0])}', f'{f.short} registers {f.text(nd["c"][0])} as a listener without owning it, so it may be destroyed before it is notified', f.loc(i))
    R.need(nt, 3, 'kinds of background tasks')
    R.need(R.counts['registrations by tasks'], 2, 'registrations by tasks')
    # registrations of this
    nr = 0
    for f in P.fns.values():
        if f.kind != 'ctor':
            continue
        sp = stored_params(P, f)
        for i, nd in f.calls():
            if not is_register(nd) or not nd['c'] or not any(f.nodes[x]['k'] == 'this' for x in f.walk(nd['c'][0])) or nd.get('recv', -1) < 0:
                continue
            k = param_of(f, nd['recv'])
            want = set(sp.get(k, ())) if k is not None else set()
            m = member_of(P, f, nd['recv'])
            if m:
                want.add(m)
            nr += 1
            own = {w for w in want if w[0] in P.classes and w[1] in P.classes[w[0]].fields and owning(P.classes[w[0]].fields[w[1]]['t'])}
            dt = [g for g in P.fns.values() if g.cls == f.cls and g.kind == 'dtor']
            where = f.text(nd['recv'])
            R.sample(f'{f.short} registers with {where}, kept in {sorted(w[1] for w in own)}')
            if not own:
                R.violation(f'{f.short}|register|{where}', f'{f.short} registers itself with {where}, which it does not keep alive until it is destroyed', f.loc(i))
            if not dt:
                R.violation(f'{f.short}|unregister|{where}', f'{f.short} registers itself with {where}, but the class has no destructor that removes it', f.loc(i))
            for g in dt:
                A = Removed(P, f.cls, own or want)
                if any(s == 0 for s in A.exits(g, 0)):
                    R.violation(f'{f.short}|unregister|{where}', f'{f.short} registers itself with {where}, but {g.short} can end without removing it', g.loc())
    R.count('self registrations', nr)
    R.need(nr, 2, 'self registrations')
    # back-pointers
    nb = 0
    for f in P.fns.values():
        for i, nd in enumerate(f.nodes):
            l = r = -1
            if nd['k'] == 'bin' and nd.get('op') == '=':
                l, r = nd['c']
            elif nd['k'] == 'call' and nd.get('op') == '=' and nd.get('recv', -1) >= 0 and nd['c']:
                l, r = nd['recv'], nd['c'][0]
            elif nd['k'] == 'call' and name(nd) == 'store' and nd.get('recv', -1) >= 0 and nd['c']:
                l, r = nd['recv'], nd['c'][0]
            if l < 0:
                continue
            fl = field_of(f, l)
            if not fl or fl[0] not in P.classes or fl[1] not in P.classes[fl[0]].fields or not raw(P.classes[fl[0]].fields[fl[1]]['t']):
                continue
            ln = f.nodes[l]
            while ln['k'] == 'cast':
                ln = f.nodes[ln['c'][0]]
            if ln['k'] == 'mem' and f.nodes[ln['c'][0]]['k'] == 'this':
                continue          # object's own choice of what it refers to
            owners = set()
            if any(f.nodes[x]['k'] == 'this' for x in [r]):
                owners.add(f.cls)
            k = param_of(f, r)
            if k is not None:
                for g, j in P.callers.get(f.u, []):
                    a = g.nodes[j].get('c', [])
                    if k < len(a) and any(g.nodes[x]['k'] == 'this' for x in [strip(g, a[k])]):
                        owners.add(g.cls)
            for d in sorted(o for o in owners if o):
                nb += 1
                dt = [g for g in P.fns.values() if g.cls == d and g.kind == 'dtor']
                if not any(clears(P, g, fl) for g in dt):
                    R.violation(f'{d}|{fl[1]}', f'{f.short} stores a pointer to its {d.split("::")[-1]} in {fl[1]} of another object, but the destructor of {d.split("::")[-1]} does not clear it', f.loc(i))
                # detaching
    R.count('back-pointers', nb)
    R.need(nb, 1, 'back-pointers')
    return R


def strip(f, i):
    nd = f.nodes[i]
    while nd['k'] in ('cast', 'init', 'ctor') and len(nd.get('c', [])) == 1:
        i = nd['c'][0]
        nd = f.nodes[i]
    return i


def clears(P, g, fl, seen=None):
    seen = seen or set()
    if g.u in seen:
        return False
    seen.add(g.u)
    for i, nd in enumerate(g.nodes):
        l = r = -1
        if nd['k'] == 'bin' and nd.get('op') == '=':
            l, r = nd['c']
        elif nd['k'] == 'call' and (nd.get('op') == '=' or name(nd) == 'store') and nd.get('recv', -1) >= 0 and nd['c']:
            l, r = nd['recv'], nd['c'][0]
        if l >= 0 and field_of(g, l) == fl and g.nodes[strip(g, r)]['k'] == 'null':
            return True
    for i, nd in g.calls():
        for t in P.targets(nd):
            if clears(P, t, fl, seen):
                return True
    return False


def feeds(P, f, keeper, ks):
    """Member keeper of constructor f gets its value from parameter in ks."""
    def dep(i, depth=0):
        if depth > 6:
            return False
        for x in f.walk(i):
            nd = f.nodes[x]
            if nd['k'] == 'ref' and nd.get('vk') == 'param' and any(f.params[j]['d'] == nd['d'] for j in ks):
                return True
            if nd['k'] == 'ref' and nd.get('vk') == 'local':
                v = f.locals.get(nd['d'])
                if v and v['init'] >= 0 and dep(v['init'], depth + 1):
                    return True
        return False
    for it in f.inits:
        if it.get('f') == keeper[1] and it.get('n', -1) >= 0 and dep(it['n']):
            return True
    for i, nd in enumerate(f.nodes):
        if nd['k'] == 'call' and nd.get('op') == '=' and nd.get('recv', -1) >= 0 and field_of(f, nd['recv']) == keeper and nd['c'] and dep(nd['c'][0]):
            return True
    return False


if __name__ == '__main__':
    R = run(Prog())
    print(dict(R.counts))
    for s in R.samples:
        print('  ', s)
    for k, (m, l) in R.violations.items():
        print(l, m, k)
