"""R01: the registries are consistent: what is added can be found, what is
removed leaves nothing behind, listeners hear of both at the right time."""
from prog import Prog, strip_tpl, PUBLIC
from automaton import Automaton, Tracker
from cfgutil import *
from result import Result, Broken

RULE = ('typestate of the generic registry (insert once, refuse duplicates, notify every listener after insertion and before removal), and a comparison of the add and '
        'remove sides of the sensor registry: every index that the add side fills is emptied on every path of the remove side, and every shape of pair '
        '(which role each index plays in the key) that is created is also removed, skipping only absent pairs and the sensor itself')


def basecall(nd):
    return name(nd)


def origin(P, f, i, bind, depth=0):
    """Where an object or identifier comes from: ('p', j) parameter,
    ('e', field) element of an index, or None."""
    if i is None or i < 0 or depth > 12:
        return None
    nd = f.nodes[i]
    k = nd['k']
    if k in ('cast', 'init', 'ctor') and len(nd.get('c', [])) == 1:
        return origin(P, f, nd['c'][0], bind, depth + 1)
    if k == 'un' and nd['op'] in ('*', '&'):
        return origin(P, f, nd['c'][0], bind, depth + 1)
    if k == 'ref':
        if nd.get('vk') == 'param':
            for j, p in enumerate(f.params):
                if p['d'] == nd['d']:
                    return bind.get(j, ('p', j))
        v = f.locals.get(nd.get('d'))
        if v and v['init'] >= 0 and not v.get('param'):
            return origin(P, f, v['init'], bind, depth + 1)
        return None
    if k == 'mem':
        return ('f', nd['n'])
    if k == 'call':
        nm = name(nd)
        r = nd.get('recv', -1)
        if nd.get('op') == '*' and r >= 0 or nd.get('op') == '->' and r >= 0:
            o = origin(P, f, r, bind, depth + 1)
            return o
        if nm in ('begin', 'cbegin', 'rbegin') and r >= 0:
            o = origin(P, f, r, bind, depth + 1)
            return ('e', o[1]) if o and o[0] == 'f' else o
        if nm in ('keyID', 'get', 'lock') and r >= 0 and not nd['c']:
            return origin(P, f, r, bind, depth + 1)
        if nm in ('find', 'find_sensor') and nd['c']:
            return origin(P, f, nd['c'][0], bind, depth + 1)
        if nm.endswith('pointer_cast') and nd['c']:
            return origin(P, f, nd['c'][0], bind, depth + 1)
        if nm in ('move', 'forward') and nd['c']:
            return origin(P, f, nd['c'][0], bind, depth + 1)
    return None


class Shapes:
    """Pairs made (constructor) or named (key function) below a function."""

    def __init__(self, P, cls, pair, keyfn):
        self.P, self.cls, self.pair, self.keyfn = P, cls, pair, keyfn
        self.made = {}
        self.named = {}

    def walk(self, f, bind, seen=()):
        if f.u in seen or len(seen) > 6:
            return
        for i, nd in f.calls():
            if nd['k'] == 'ctor' and nd.get('cls', '') and len(nd['c']) == 2 and strip_tpl(nd['q']).endswith('sensor_pair::sensor_pair'):
                self.made.setdefault(tuple(origin(self.P, f, a, bind) for a in nd['c']), (f, i))
            elif nd['k'] == 'call' and name(nd) == 'make_shared' and 'sensor_pair>' in nd.get('t', '') and len(nd['c']) == 2:
                self.made.setdefault(tuple(origin(self.P, f, a, bind) for a in nd['c']), (f, i))
            elif nd['k'] == 'call' and name(nd) == self.keyfn and len(nd['c']) == 2:
                self.named.setdefault(tuple(origin(self.P, f, a, bind) for a in nd['c']), (f, i))
            for t in self.P.targets(nd):
                if t.cls == self.cls and nd['k'] == 'call':
                    b = {}
                    for j, a in enumerate(nd['c']):
                        o = origin(self.P, f, a, bind)
                        b[j] = o
                    self.walk(t, b, seen + (f.u,))


class Manager(Tracker):
    """add / remove of the generic registry.
    core = (present, inserted, notified, erased)
    present: None unknown, 0, 1"""

    def __init__(self, P, mapf, lst, mode):
        super().__init__(P)
        self.mapf, self.lst, self.mode = mapf, lst, mode

    def follow(self, fn, e):
        if isinstance(e, int):
            nd = fn.nodes[e]
            if nd['k'] == 'call' and 'u' in nd and not nd.get('virt'):
                return [t for t in self.P.targets(nd) if t.cls == fn.cls and t.u != fn.u and t.r.get('acc', 0) != PUBLIC]
        return ()

    def recv_map(self, fn, nd):
        return nd.get('recv', -1) >= 0 and (field_of(fn, nd['recv']) or (0, 0))[1] == self.mapf

    def subject(self, fn, i, depth=0):
        """'found' iterators into the map."""
        nd = fn.nodes[i]
        while nd['k'] in ('cast', 'ctor') and len(nd.get('c', [])) == 1:
            nd = fn.nodes[nd['c'][0]]
        if nd['k'] == 'ref' and nd.get('vk') == 'local':
            v = fn.locals.get(nd['d'])
            return bool(v and v['init'] >= 0 and depth < 4 and self.subject(fn, v['init'], depth + 1))
        return nd['k'] == 'call' and name(nd) in ('find', 'count', 'contains') and self.recv_map(fn, nd)

    def isend(self, fn, i):
        nd = fn.nodes[i]
        while nd['k'] in ('cast', 'ctor') and len(nd.get('c', [])) == 1:
            nd = fn.nodes[nd['c'][0]]
        return nd['k'] == 'call' and name(nd) in ('end', 'cend') and self.recv_map(fn, nd)

    def atom(self, fn, i, core):
        nd = fn.nodes[i]
        a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd.get('c', [])
        val = None
        if nd.get('op') in ('==', '!=', '>', '<', '>=') and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if self.subject(fn, x):
                    if self.isend(fn, y):
                        val = nd['op'] == '!='            # True means present
                    else:
                        lit = fn.nodes[y]
                        while lit['k'] == 'cast':
                            lit = fn.nodes[lit['c'][0]]
                        if lit['k'] == 'lit' and isinstance(lit.get('v'), int):
                            op, z = nd['op'], lit['v']
                            f = {'==': lambda n: n == z, '!=': lambda n: n != z, '>': lambda n: n > z, '<': lambda n: n < z, '>=': lambda n: n >= z}[op]
                            if x == a[0] and f(0) != f(1):
                                val = f(1)
        elif nd['k'] == 'call' and name(nd) in ('contains', 'count') and self.recv_map(fn, nd):
            val = True
        if val is None:
            return None
        p, ins, no, er = core
        if p is not None:
            return [(core, (p == 1) == val)]
        return [((1, ins, no, er), val), ((0, ins, no, er), not val)]

    def events(self, fn, e):
        if not isinstance(e, int):
            return
        nd = fn.nodes[e]
        if nd['k'] == 'call':
            nm = name(nd)
            if nd.get('op') == '=' and nd.get('recv', -1) >= 0:
                r = fn.nodes[nd['recv']]
                if r['k'] == 'call' and r.get('op') == '[]' and self.recv_map(fn, r):
                    yield 'insert'
            elif self.recv_map(fn, nd):
                if nm in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
                    yield 'insert'
                elif nm == 'erase':
                    yield 'erase'
                elif nm in ('clear', 'swap'):
                    yield 'clear'
            elif nd.get('virt') and strip_tpl(nd.get('cls', '')).endswith('listener'):
                yield 'notify_add' if 'add' in nm else 'notify_remove' if 'remove' in nm else 'notify'

    def step(self, s, sym, fn, e):
        p, ins, no, er = s
        if sym == 'insert':
            if self.mode == 'remove':
                self.error(fn, e, sym, 'a removal inserts an object')
            if p != 0:
                self.error(fn, e, sym, 'an object is inserted although its key may be in use')
            if no:
                self.error(fn, e, sym, 'listeners are told of an addition before it happens')
            return {(1, 1, no, er)}
        if sym == 'erase':
            if self.mode == 'add':
                self.error(fn, e, sym, 'an addition erases an object')
            return {(0, ins, no, 1)}
        if sym == 'clear':
            self.error(fn, e, sym, 'the registry is cleared by an addition or removal')
            return None
        if sym.startswith('notify'):
            if sym == 'notify_remove':
                if self.mode == 'add':
                    self.error(fn, e, sym, 'listeners are told of a removal when an object is added')
                if er:
                    self.error(fn, e, sym, 'listeners are told of a removal after the object is gone')
                if p != 1:
                    self.error(fn, e, sym, 'listeners are told of the removal of an object that may not be there')
            elif sym == 'notify_add':
                if self.mode == 'remove':
                    self.error(fn, e, sym, 'listeners are told of an addition when an object is removed')
                if not ins:
                    self.error(fn, e, sym, 'listeners are told of an addition before it happens')
            return {(p, ins, 1, er)}


class Each(Automaton):
    """Every element of an index is dealt with.  state = pending(0/1)"""

    def __init__(self, P, field, handle, excuse, cls):
        super().__init__(P)
        self.field, self.handle, self.excuse, self.cls = field, handle, excuse, cls
        self.at = set()

    def follow(self, fn, e):
        if isinstance(e, int) and fn.nodes[e]['k'] == 'call' and 'u' in fn.nodes[e] and not self.handle(fn, fn.nodes[e]):
            return [t for t in self.P.targets(fn.nodes[e]) if t.cls == self.cls and t.u != fn.u]
        return ()

    def iterates(self, fn, i, depth=0):
        nd = fn.nodes[i]
        if nd['k'] == 'call' and nd.get('op') == '*' and nd.get('recv', -1) >= 0:
            o = origin(self.P, fn, nd['recv'], {})
            return o == ('e', self.field)
        return False

    def events(self, fn, e):
        if not isinstance(e, int):
            return
        nd = fn.nodes[e]
        if nd['k'] == 'decl':
            for v in nd['vars']:
                if v['init'] >= 0 and self.iterates(fn, v['init']):
                    self.at.add((fn.u, e))
                    yield 'iter'
        if nd['k'] == 'call' and self.handle(fn, nd):
            self.at.add((fn.u, e))
            yield 'handled'

    def branch(self, fn, c, truth):
        c, truth = strip_not(fn, c, truth)
        if self.excuse(fn, c, truth):
            yield 'handled'

    def step(self, s, sym, fn, e):
        if sym == 'iter':
            if s:
                self.error(fn, e, sym, 'skipped')
            return {1}
        return {0}


class AllPaths(Automaton):
    """An event happens on every path."""

    def __init__(self, P, hit, cls):
        super().__init__(P)
        self.hit, self.cls = hit, cls

    def follow(self, fn, e):
        if isinstance(e, int) and fn.nodes[e]['k'] == 'call' and 'u' in fn.nodes[e] and not self.hit(fn, fn.nodes[e]):
            return [t for t in self.P.targets(fn.nodes[e]) if t.cls == self.cls and t.u != fn.u]
        return ()

    def events(self, fn, e):
        if isinstance(e, int) and fn.nodes[e]['k'] == 'call' and self.hit(fn, fn.nodes[e]):
            yield 'hit'

    def step(self, s, sym, fn, e):
        return {1}


def compares(f, c):
    nd = f.nodes[c]
    a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd.get('c', [])
    if nd.get('op') in ('==', '!=') and len(a) == 2:
        return a[0], a[1], nd['op']
    return None


def fn_null(f, q):
    nd = f.nodes[q]
    while nd['k'] in ('cast', 'ctor', 'init') and len(nd.get('c', [])) == 1:
        nd = f.nodes[nd['c'][0]]
    return nd['k'] == 'null'


def leaves_early(f, E):
    """A loop over the elements is left from inside."""
    at = {e for (u, e) in E.at if u == f.u}
    for s in stmts(f.body):
        if s.get('s') in ('for', 'while', 'do', 'rangefor') and at & stmt_nodes(f, s.get('body')):
            inner = s.get('body')
            if any(x.get('s') in ('for', 'while', 'do', 'rangefor') and at & stmt_nodes(f, x.get('body')) for x in stmts(inner)):
                continue
            if has_exit(inner, True):
                return True
    return False


def has_exit(s, top):
    if isinstance(s, list):
        return any(has_exit(x, top) for x in s)
    if not isinstance(s, dict):
        return False
    k = s.get('s')
    if k == 'ret' or k == 'break' and top:
        return True
    t = top and k not in ('for', 'while', 'do', 'rangefor', 'switch')
    return any(has_exit(v, t) for v in s.values() if isinstance(v, (dict, list)))


def isnull_edge(f, c, truth, what=''):
    x = compares(f, c)
    if x:
        for p, q in ((x[0], x[1]), (x[1], x[0])):
            if fn_null(f, q) and (x[2] == '==') == truth and what in f.nodes[p].get('t', '') and 'listener' not in f.nodes[p].get('t', ''):
                return True
    nd = f.nodes[c]
    if nd['k'] == 'call' and name(nd) == 'operator bool' and not truth and nd.get('recv', -1) >= 0:
        return what in f.nodes[nd['recv']].get('t', '')
    return False


def closure(P, f, cls):
    out, st = {}, [f]
    while st:
        x = st.pop()
        if x.u in out:
            continue
        out[x.u] = x
        for i, nd in x.calls():
            for t in P.targets(nd):
                if t.cls == cls:
                    st.append(t)
    return list(out.values())


def run(P):
    R = Result()
    R.rule = RULE

    # A. generic registries
    ms = [c for c in P.classes.values() if strip_tpl(c.name).endswith('manager_template')]
    if not ms:
        raise Broken('registry template not found')
    nreg = 0
    for C in ms:
        maps = [n for n, fl in C.fields.items() if 'map<' in fl['t']]
        lst = [n for n, fl in C.fields.items() if 'listener' in fl['t']]
        if len(maps) != 1 or len(lst) != 1:
            raise Broken(f'{C.name}: expected one map and one set of listeners')
        for f in P.fns.values():
            if f.cls != C.name or f.kind != 'method':
                continue
            if f.n in ('add', 'remove'):
                nreg += 1
                A = Manager(P, maps[0], lst[0], f.n)
                ex = A.cores(f, (None, 0, 0, 0))
                for (_, e, sym), (g, e2, msg) in A.errors.items():
                    R.violation(f'manager_template::{g.n}|{msg}', f'{g.short}: {msg}', g.loc(e2))
                for p, ins, no, er in ex:
                    if f.n == 'add' and not ins:
                        R.violation('manager_template::add|insert', f'{f.short} can return without having inserted the object', f.loc())
                    if f.n == 'remove' and not er and p != 0:
                        R.violation('manager_template::remove|erase', f'{f.short} can return without having erased an object that is present', f.loc())
                # every listener is notified: the notification is made in a loop over the listeners and nothing else decides
                E = Each(P, lst[0], lambda fn, nd: bool(nd.get('virt')) and strip_tpl(nd.get('cls', '')).endswith('listener'), lambda *a: False, C.name)
                st = E.exits(f, 0)
                if E.errors or 1 in st or leaves_early(f, E) or not E.hits['iter']:
                    R.violation(f'manager_template::{f.n}|all', f'{f.short} does not notify every listener', f.loc())
            if f.n in ('add_listener', 'remove_listener'):
                op = ('insert', 'emplace') if f.n == 'add_listener' else ('erase',)
                A = AllPaths(P, lambda fn, nd: nd.get('recv', -1) >= 0 and (field_of(fn, nd['recv']) or (0, 0))[1] == lst[0] and name(nd) in op, C.name)
                if A.exits(f, 0) != {1}:
                    R.violation(f'manager_template::{f.n}', f'{f.short} does not update the set of listeners on every path', f.loc())
            if f.n == 'list':
                E = Each(P, maps[0], lambda fn, nd: name(nd) in ('push_back', 'push_front', 'emplace_back', 'insert'), lambda *a: False, C.name)
                st = E.exits(f, 0)
                if E.hits['iter'] and (E.errors or 1 in st or leaves_early(f, E)):
                    R.violation('manager_template::list', f'{f.short} does not list every object', f.loc())
    R.need(nreg, 4, 'generic add and remove functions')
    R.count('registry functions', nreg)

    # notifiers: add and remove update the set, notification reaches everybody
    nn = 0
    for C in P.classes.values():
        if not strip_tpl(C.name).endswith('notifier'):
            continue
        sets = [n for n, fl in C.fields.items() if 'listener' in fl['t'] and ('set<' in fl['t'] or 'list<' in fl['t'] or 'vector<' in fl['t'])]
        if len(sets) != 1:
            continue
        for f in P.fns.values():
            if f.cls != C.name or f.kind != 'method':
                continue
            if f.n.startswith('add_') or f.n.startswith('remove_'):
                nn += 1
                op = ('insert', 'emplace', 'push_back') if f.n.startswith('add_') else ('erase', 'remove')
                A = AllPaths(P, lambda fn, nd: nd.get('recv', -1) >= 0 and (field_of(fn, nd['recv']) or (0, 0))[1] == sets[0] and name(nd) in op and nd['c'] and origin(P, fn, nd['c'][0], {}) == ('p', 0), C.name)
                if A.exits(f, 0) != {1}:
                    R.violation(f'{strip_tpl(f.short)}|set', f'{f.short} does not update the set of listeners with its argument on every path', f.loc())
            elif any(nd.get('virt') and strip_tpl(nd.get('cls', '')).endswith('listener') for _, nd in f.calls()):
                nn += 1
                calls = [(i, nd) for i, nd in f.calls() if nd.get('virt') and strip_tpl(nd.get('cls', '')).endswith('listener')]

                class Reach(Each):
                    def iterates(self, fn, i, depth=0):
                        nd = fn.nodes[i]
                        return nd['k'] == 'call' and nd.get('op') == '*' and 'listener' in nd.get('t', '')
                E = Reach(P, sets[0], lambda fn, nd: bool(nd.get('virt')) and strip_tpl(nd.get('cls', '')).endswith('listener'), lambda *a: False, C.name)
                st = E.exits(f, 0)
                for g in closure(P, f, C.name):
                    # arguments handed on unchanged and in order
                    pass
                if E.hits['iter'] and (E.errors or 1 in st or leaves_early(f, E)):
                    R.violation(f'{strip_tpl(f.short)}|all', f'{f.short} does not notify every listener', f.loc())
                for i, nd in calls:
                    for k, a in enumerate(nd['c']):
                        o = origin(P, f, a, {})
                        R.count('arguments handed to listeners')
                        if o and o[0] == 'p' and o[1] != k and len(nd['c']) == len(f.params):
                            R.violation(f'{strip_tpl(f.short)}|arg{k}', f'{f.short} hands argument {f.params[o[1]]["n"]} to its listeners in place {k}', f.loc(i))
    R.count('notifier functions', nn)
    R.need(nn, 8, 'notifier functions')

    # B. platform registry: fresh keys
    PM = P.cls_by_name('platforms::platform_manager') or P.cls_by_name('platform_manager')
    pa = [f for f in P.fns.values() if f.cls == (PM.name if PM else '') and f.n == 'add']
    R.need(len(pa), 1, 'platform registration')
    for f in pa:
        check_keys(P, R, f, PM)

    # C. sensor registry
    SM = P.cls_by_name('sensor_manager')
    if not SM:
        raise Broken('sensor registry not found')
    idx = [n for n, fl in list(SM.fields.items()) + list(SM.statics.items()) if 'set<' in fl['t'] and 'long' in fl['t']]
    adds = [f for f in P.fns.values() if f.cls == SM.name and f.n == 'add_sensor']
    rems = [f for f in P.fns.values() if f.cls == SM.name and f.n == 'remove_sensor']
    if not adds or not rems:
        raise Broken('add or remove side of the sensor registry not found')
    R.need(len(idx), 2, 'indexes of the sensor registry')
    add, rem = adds[0], rems[0]

    def touches(field, ops):
        return lambda fn, nd: nd.get('recv', -1) >= 0 and (field_of(fn, nd['recv']) or (0, 0))[1] == field and name(nd) in ops
    for n in idx:
        ins = any(touches(n, ('insert', 'emplace'))(g, nd) for g in closure(P, add, SM.name) for _, nd in g.calls())
        if not ins:
            R.violation(f'add_sensor|{n}', f'{add.short} never enters a sensor into {n}', add.loc())
        A = AllPaths(P, touches(n, ('erase', 'clear')), SM.name)
        R.count('indexes')
        if A.exits(rem, 0) != {1}:
            R.violation(f'remove_sensor|{n}', f'{rem.short} can end without erasing the sensor from {n}', rem.loc())

    def platform(op):
        return lambda fn, nd: name(nd) == op and nd.get('recv', -1) >= 0 and 'platform_manager' in fn.nodes[nd['recv']].get('t', '')
    A = AllPaths(P, platform('add'), SM.name)
    if A.exits(add, 0) != {1}:
        R.violation('add_sensor|platform', f'{add.short} can end without entering the sensor into the platform registry', add.loc())
    A = AllPaths(P, platform('remove'), SM.name)
    if A.exits(rem, 0) != {1}:
        R.violation('remove_sensor|platform', f'{rem.short} can end without removing the sensor from the platform registry', rem.loc())

    S1 = Shapes(P, SM.name, 'sensor_pair', 'generate_hash_key')
    S1.walk(add, {})
    S2 = Shapes(P, SM.name, 'sensor_pair', 'generate_hash_key')
    S2.walk(rem, {})
    R.need(len(S1.made), 3, 'shapes of pairs created')
    opaque = any(None in s for s in S2.named) or not S2.named
    for s, (g, i) in sorted(S1.made.items(), key=str):
        R.count('shapes of pairs')
        R.sample(f'pair {shape(s)} created in {g.short}')
        if None in s:
            R.notes.setdefault('unresolved shapes', []).append(g.loc(i))
            continue
        if s not in S2.named and not opaque:
            R.violation(f'{g.short}|shape {shape(s)}', f'{g.short} creates the pair {shape(s)} (source, receiver), which {rem.short} does not remove', g.loc(i))
    for s, (g, i) in S2.named.items():
        if s not in S1.made and None not in s:
            R.violation(f'{g.short}|shape {shape(s)}', f'{g.short} names the pair {shape(s)} (source, receiver), which is never created', g.loc(i))
    # which index plays which role
    roles = {}
    for s in S1.made:
        for pos, o in enumerate(s):
            if o and o[0] == 'e':
                roles.setdefault(o[1], set()).add(pos)
    for n, r in roles.items():
        if len(r) != 1:
            R.violation(f'role|{n}', f'index {n} is used both for sources and for receivers when pairs are created', add.loc())
    for g in closure(P, add, SM.name):
        for i, nd in g.calls():
            if touches_any(g, nd, idx, ('insert', 'emplace')):
                n = field_of(g, nd['recv'])[1]
                want = {0: 'is_source', 1: 'is_receiver'}.get(next(iter(roles.get(n, {None}))))
                if want and not guarded_by(g, i, want):
                    R.violation(f'{g.short}|guard {n}', f'{g.short} enters a sensor into {n} without {want}() holding', g.loc(i))

    # a sensor takes part only in roles it can play, and a failed addition leaves nothing behind
    for i, nd in add.calls():
        for t in P.targets(nd):
            if t.cls == SM.name and t.u != add.u:
                S = Shapes(P, SM.name, 'sensor_pair', 'generate_hash_key')
                S.walk(t, {})
                for sh in S.made:
                    for pos, o in enumerate(sh):
                        if o and o[0] == 'p':
                            want = ('is_source', 'is_receiver')[pos]
                            R.count('role guards')
                            if not guarded_by(add, i, want) and not any(guarded_by(g, j, want) for g in closure(P, t, SM.name) for j, m in g.calls() if m['k'] == 'ctor' or ad0(P, g, m)):
                                R.violation(f'{t.short}|role {want}', f'{add.short} pairs a sensor up through {t.short} without {want}() holding', add.loc(i))

    class Order(Automaton):
        def follow(self, fn, e):
            if isinstance(e, int) and fn.nodes[e]['k'] == 'call' and 'u' in fn.nodes[e] and not platform('add')(fn, fn.nodes[e]):
                return [t for t in P.targets(fn.nodes[e]) if t.cls == SM.name and t.u != fn.u]
            return ()

        def events(self, fn, e):
            if isinstance(e, int):
                nd = fn.nodes[e]
                if nd['k'] == 'throw':
                    yield 'throw'
                elif nd['k'] == 'call' and platform('add')(fn, nd):
                    yield 'add'
                elif nd['k'] == 'call' and touches_any(fn, nd, idx, ('insert', 'emplace')):
                    yield 'index'

        def step(self, st, sym, fn, e):
            if sym == 'add':
                return {1}
            if sym == 'index' and not st:
                self.error(fn, e, sym, 'enters a sensor into an index before the platform registry has accepted it')
            if sym == 'throw' and st:
                self.error(fn, e, sym, 'refuses a sensor that is already registered as a platform')
    O = Order(P)
    O.exits(add, 0)
    for (_, e, sym), (g, e2, msg) in O.errors.items():
        R.violation(f'{g.short}|{sym}', f'{g.short} {msg}', g.loc(e2))

    # loops of both sides deal with every element
    def rm(fn, nd):
        return name(nd) == 'remove' and nd.get('recv', -1) >= 0 and any(strip_tpl(t.cls or '').endswith('manager_template') for t in P.targets(nd))

    def ad(fn, nd):
        return name(nd) == 'add' and nd.get('recv', -1) >= 0 and any(strip_tpl(t.cls or '').endswith('manager_template') for t in P.targets(nd))

    def push(fn, nd):
        return name(nd) in ('push_back', 'push_front', 'emplace_back')

    def same_id(fn, c, truth):
        x = compares(fn, c)
        return bool(x) and (x[2] == '==') == truth and all(fn.nodes[y].get('t', '').replace('const ', '') in ('unsigned long', 'usml::sensors::sensor_model *') or 'sensor_model' in fn.nodes[y].get('t', '') for y in x[:2]) and not any('multistatic' in fn.text(y) for y in x[:2])

    def other_group(fn, c, truth):
        x = compares(fn, c)
        return bool(x) and (x[2] == '!=') == truth and any('multistatic' in name(fn.nodes[z]) for y in x[:2] for z in fn.walk(y) if fn.nodes[z]['k'] == 'call')

    ex_rm = lambda fn, c, t: isnull_edge(fn, c, t) or same_id(fn, c, t)
    ex_ad = lambda fn, c, t: isnull_edge(fn, c, t, 'sensor_model') or same_id(fn, c, t) or other_group(fn, c, t)
    nl = 0
    for root, handle, excuse, verb in [(add, ad, ex_ad, 'pair up'), (rem, rm, ex_rm, 'remove')]:
        for g in closure(P, root, SM.name):
            for n in idx:
                E = Each(P, n, handle, excuse, SM.name)
                st = E.exits(g, 0)
                if not E.hits['iter']:
                    continue
                nl += 1
                if E.errors or 1 in st or leaves_early(g, E):
                    R.violation(f'{g.short}|loop {n}', f'{g.short} can fail to {verb} a pair for an element of {n}', g.loc())
    for fnm, pos in (('find_source', 0), ('find_receiver', 1)):
        for f in [f for f in P.fns.values() if f.cls == SM.name and f.n == fnm]:
            S = Shapes(P, SM.name, 'sensor_pair', 'generate_hash_key')
            S.walk(f, {})
            for s, (g, i) in S.named.items():
                if None in s:
                    continue
                R.count('lookups')
                if s[pos] != ('p', 0):
                    R.violation(f'{f.short}|role', f'{f.short} looks up pairs in which its sensor is not the {("source", "receiver")[pos]}', g.loc(i))
                elif s[1 - pos][0] == 'e' and roles.get(s[1 - pos][1]) != {1 - pos}:
                    R.violation(f'{f.short}|index', f'{f.short} searches the wrong index', g.loc(i))
            for n in idx:
                E = Each(P, n, push, lambda fn, c, t: isnull_edge(fn, c, t), SM.name)
                st = E.exits(f, 0)
                if E.hits['iter'] and (E.errors or 1 in st or leaves_early(f, E)):
                    R.violation(f'{f.short}|loop {n}', f'{f.short} can leave out a pair', f.loc())
                nl += bool(E.hits['iter'])
    R.count('loops over indexes', nl)
    # monostatic pair
    for g in closure(P, rem, SM.name):
        named = [(i, nd) for i, nd in g.calls() if name(nd) == 'generate_hash_key']
        if named and not any((origin(P, g, a, {}) or (0,))[0] == 'e' for i, nd in named for a in nd['c']):
            class One(AllPaths):
                def branch(self, fn, c, truth):
                    c, truth = strip_not(fn, c, truth)
                    if isnull_edge(fn, c, truth):
                        yield 'hit'
            A = One(P, rm, SM.name)
            if A.exits(g, 0) != {1}:
                R.violation(f'{g.short}|mono', f'{g.short} can fail to remove an existing pair', g.loc())
    # every helper that removes pairs runs whenever a sensor is removed
    for g in closure(P, rem, SM.name):
        inloop = set().union(*[stmt_nodes(rem, s.get('body')) for s in stmts(rem.body) if s.get('s') in LOOPS.values()] or [set()])
        direct = any(g in P.targets(nd) for i, nd in rem.calls() if i not in inloop)
        if g.u != rem.u and direct and any(name(nd) == 'generate_hash_key' for h in closure(P, g, SM.name) for _, nd in h.calls()):
            A = AllPaths(P, lambda fn, nd: any(t.u == g.u for t in P.targets(nd)), SM.name)
            R.count('removal helpers')
            if A.exits(rem, 0) != {1}:
                R.violation(f'{g.short}|always', f'{rem.short} can end without calling {g.short}', rem.loc())
    # listener of new pairs
    for g in closure(P, add, SM.name):
        lp = [p for p in g.params if 'listener' in p['t']]
        if lp and any(ad(g, nd) and 'pair' in str(nd.get('u')) or ad(g, nd) for _, nd in g.calls()):
            L = Listener(P, ad, lp[0]['d'])
            L.exits(g, (0, 0))
            for (_, e, sym), (h, e2, msg) in L.errors.items():
                R.violation(f'{h.short}|listener', f'{h.short}: {msg}', h.loc(e2))
    # reset
    for f in [f for f in P.fns.values() if f.cls == SM.name and f.n == 'reset']:
        A = AllPaths(P, lambda fn, nd: name(nd) == 'reset' and any((t.cls or '').endswith('platform_manager') for t in P.targets(nd)), SM.name)
        if A.exits(f, 0) != {1}:
            R.violation(f'{f.short}|platforms', f'{f.short} leaves sensors in the platform registry', f.loc())

    # D. hosts and children
    PL = P.cls_by_name('platform_model')
    for f in [f for f in P.fns.values() if PL and f.cls == PL.name and f.n == 'remove_child']:
        A = AllPaths(P, lambda fn, nd: name(nd) == 'remove' and any(strip_tpl(t.cls or '').endswith('manager_template') for t in P.targets(nd)), PL.name)
        if A.exits(f, 0) != {1}:
            R.violation(f'{f.short}|remove', f'{f.short} can end without removing the child', f.loc())

        class Host(AllPaths):
            def events(self, fn, e):
                if isinstance(e, int):
                    op = None
                    nd = fn.nodes[e]
                    l = r = -1
                    if nd['k'] == 'bin' and nd.get('op') == '=':
                        l, r = nd['c']
                    elif nd['k'] == 'call' and (nd.get('op') == '=' or name(nd) == 'store') and nd.get('recv', -1) >= 0 and nd['c']:
                        l, r = nd['recv'], nd['c'][0]
                    if l >= 0 and (field_of(fn, l) or (0, 0))[1] == '_host' and any(fn.nodes[x]['k'] == 'null' for x in fn.walk(r)):
                        yield 'hit'

            def branch(self, fn, c, truth):
                c, truth = strip_not(fn, c, truth)
                if isnull_edge(fn, c, truth):
                    yield 'hit'
        if '_host' in PL.fields:
            A = Host(P, lambda fn, nd: False, PL.name)
            if A.exits(f, 0) != {1}:
                R.violation(f'{f.short}|host', f'{f.short} leaves the removed child attached to its host', f.loc())
    return R


def ad0(P, fn, nd):
    return name(nd) == 'add' and nd.get('recv', -1) >= 0 and any(strip_tpl(t.cls or '').endswith('manager_template') for t in P.targets(nd))


def touches_any(g, nd, idx, ops):
    return nd.get('recv', -1) >= 0 and (field_of(g, nd['recv']) or (0, 0))[1] in idx and name(nd) in ops


def guarded_by(f, i, method):
    """Node i is only reached on an edge where a call of `method` is true."""
    class G(Automaton):
        def branch(self, fn, c, truth):
            c, truth = strip_not(fn, c, truth)
            nd = fn.nodes[c]
            if nd['k'] == 'call' and name(nd) == method:
                yield ('yes',) if truth else ('no',)

        def step(self, s, sym, fn, e):
            return {1 if sym == ('yes',) else 0} if isinstance(sym, tuple) else None

        def events(self, fn, e):
            if e == i:
                yield 'at'

        def apply(self, states, sym, fn, e):
            if sym == 'at':
                self.seen |= states
                return states
            return super().apply(states, sym, fn, e)
    A = G(f.prog)
    A.seen = set()
    A.exits(f, 0)
    return A.seen == {1}


class Listener(Automaton):
    """state = (listener known non-null, registered)"""

    def __init__(self, P, ad, d):
        super().__init__(P)
        self.ad, self.d = ad, d

    def events(self, fn, e):
        if isinstance(e, int) and fn.nodes[e]['k'] == 'call':
            nd = fn.nodes[e]
            if name(nd) == 'add_listener' and nd['c'] and any(fn.nodes[x].get('d') == self.d for x in fn.walk(nd['c'][0])):
                yield 'reg'
            elif self.ad(fn, nd) and 'sensor_pair' in nd.get('q', '') + str([t.cls for t in self.P.targets(nd)]):
                yield 'add'
        if isinstance(e, int) and fn.nodes[e]['k'] == 'decl' and any('sensor_pair' in v['t'] for v in fn.nodes[e]['vars']):
            yield 'new'

    def branch(self, fn, c, truth):
        c, truth = strip_not(fn, c, truth)
        x = compares(fn, c)
        if x:
            for p, q in ((x[0], x[1]), (x[1], x[0])):
                if fn.nodes[q]['k'] == 'null' and fn.nodes[p].get('d') == self.d:
                    yield 'null' if (x[2] == '==') == truth else 'nonnull'
        elif fn.nodes[c].get('d') == self.d:
            yield 'nonnull' if truth else 'null'

    def step(self, s, sym, fn, e):
        if sym == 'reg':
            return {(s[0], 1)}
        if sym == 'new':
            return {(0, 0)}
        if sym == 'null':
            return {(0, 1)}
        if sym == 'nonnull':
            return {(1, s[1])}
        if sym == 'add' and not s[1]:
            self.error(fn, e, sym, 'a pair is added without its listener')
        return None


def check_keys(P, R, f, C):
    """The largest key ever used is remembered before the object is added."""
    mx = [n for n, fl in C.fields.items() if fl['t'].replace('const ', '') in ('unsigned long', 'unsigned long long', 'int', 'long')]
    if not mx:
        raise Broken('largest key of the platform registry not found')
    m = mx[0]

    class Keys(Automaton):
        """state = (key is zero: None/0/1, remembered, fresh key assigned)"""

        def is_key(self, fn, i):
            nd = fn.nodes[i]
            while nd['k'] in ('cast', 'init') and len(nd['c']) == 1:
                i = nd['c'][0]
                nd = fn.nodes[i]
            if nd['k'] == 'ref' and nd.get('vk') == 'local':
                v = fn.locals.get(nd['d'])
                return bool(v and v['init'] >= 0 and self.is_key(fn, v['init']))
            return nd['k'] == 'call' and name(nd) == 'keyID' and not nd['c']

        def follow(self, fn, e):
            if isinstance(e, int) and fn.nodes[e]['k'] == 'call' and 'u' in fn.nodes[e]:
                return [t for t in P.targets(fn.nodes[e]) if t.cls == C.name and t.u != fn.u]
            return ()

        def events(self, fn, e):
            if not isinstance(e, int):
                return
            nd = fn.nodes[e]
            op = atomic_op(fn, e)
            if op and op[0][1] == m:
                if op[1] == 'inc':
                    yield 'inc'
                elif op[1] in ('store',):
                    w = [fn.nodes[x] for x in fn.walk(op[2])]
                    if any(x['k'] == 'call' and name(x) == 'max' for x in w) and any(self.is_key(fn, x) for x in fn.walk(op[2])) and any(x['k'] == 'mem' and x['n'] == m for x in w):
                        yield 'max'
                    elif self.is_key(fn, op[2]):
                        yield 'copy'
                    elif fn.nodes[op[2]]['k'] == 'cond' and any(self.is_key(fn, x) for x in fn.walk(op[2])):
                        yield 'max'
                    else:
                        yield 'lost'
            if nd['k'] == 'call' and name(nd) == 'keyID' and len(nd['c']) == 1:
                a = nd['c'][0]
                x = fn.nodes[a]
                while x['k'] in ('cast', 'init') and len(x['c']) == 1:
                    x = fn.nodes[x['c'][0]]
                good = x['k'] == 'un' and x['op'] == '++' and not x.get('post') or x['k'] == 'mem' and x['n'] == m or x['k'] == 'bin' and x.get('asg')
                yield 'assign' if good else 'stale'
            if nd['k'] == 'call' and name(nd) == 'add' and any(strip_tpl(t.cls or '').endswith('manager_template') for t in P.targets(nd)):
                yield 'add'

        def branch(self, fn, c, truth):
            c, truth = strip_not(fn, c, truth)
            nd = fn.nodes[c]
            if nd['k'] == 'bin' and len(nd['c']) == 2:
                a, b = nd['c']
                for x, y, flip in ((a, b, False), (b, a, True)):
                    if not self.is_key(fn, x):
                        continue
                    yn = fn.nodes[y]
                    while yn['k'] == 'cast':
                        yn = fn.nodes[yn['c'][0]]
                    if yn['k'] == 'lit' and yn.get('v') == 0:
                        if nd['op'] in ('==', '!='):
                            yield 'zero' if (nd['op'] == '==') == truth else 'nonzero'
                        elif nd['op'] == '>' and not flip:
                            yield 'nonzero' if truth else 'zero'
                    elif yn['k'] == 'mem' and yn['n'] == m:
                        op = nd['op']
                        if flip:
                            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                        # key op max
                        if op in ('>', '>='):
                            yield 'larger' if truth else 'covered'
                        elif op in ('<', '<='):
                            yield 'covered' if truth else 'larger'

        def step(self, s, sym, fn, e):
            z, rem, fresh = s
            if sym == 'zero':
                return {(1, rem, fresh)}
            if sym == 'nonzero':
                return {(0, rem, fresh)}
            if sym == 'inc':
                return {(z, rem or (z == 1), fresh)} if z != 0 else {s}
            if sym == 'assign':
                return {(0, 1, 1)}
            if sym == 'stale':
                self.error(fn, e, sym, 'an automatically assigned key may already be in use')
                return {(0, 1, 1)}
            if sym in ('max', 'covered'):
                return {(z, 1, fresh)}
            if sym == 'larger':
                return {(z, 2 if not rem else rem, fresh)}
            if sym == 'copy':
                if rem != 2:
                    self.error(fn, e, sym, 'the largest key is overwritten by a key that may be smaller')
                return {(z, 1, fresh)}
            if sym == 'lost':
                self.error(fn, e, sym, 'the largest key in use is forgotten')
                return None
            if sym == 'add':
                if z != 0:
                    self.error(fn, e, sym, 'a platform whose key is zero is added without being given a key of its own')
                if rem != 1:
                    self.error(fn, e, sym, 'a key in use is not remembered, so that it can be assigned again')
                return None
    K = Keys(P)
    K.exits(f, (None, 0, 0))
    R.count('key assignments', sum(K.hits.values()))
    if not K.hits['add']:
        R.violation(f'{f.short}|add', f'{f.short} does not add the platform to the registry', f.loc())
    for (_, e, sym), (g, e2, msg) in K.errors.items():
        R.violation(f'{g.short}|{msg}', f'{g.short}: {msg}', g.loc(e2))


def shape(s):
    return '(' + ', '.join('?' if o is None else 'new sensor' if o[0] == 'p' else 'any of ' + o[1] for o in s) + ')'


if __name__ == '__main__':
    R = run(Prog())
    print(dict(R.counts))
    for s in R.samples:
        print('  ', s)
    for k, (m, l) in R.violations.items():
        print(l, m, k)
