"""C04: an aborted computation publishes nothing, a finished one publishes once."""
from prog import Prog, strip_tpl, PUBLIC
from automaton import Tracker
from cfgutil import *
from nullness import is_ptr
from result import Result, Broken

RULE = ('typestate over every path of the run() of each background task and its helpers: the abort flag is tested before any work and after every unit of work of each '
        'loop, a path that saw the flag set neither marks the task done nor notifies listeners, every other path marks it done and then notifies exactly once; '
        'the flags are never cleared; and every result handler of a pair either starts the next computation or notifies its listeners')

TASK = 'thread_task'


def base_of(P):
    T = P.cls_by_name(TASK)
    if T is None:
        raise Broken('task class not found')
    return T


def const_member(f):
    return bool(f.r.get('cst'))


class Publisher:
    """Functions that (transitively) call a listener."""

    def __init__(self, P):
        self.P = P
        self.direct = set()
        for f in P.fns.values():
            for i, nd in f.calls():
                if nd.get('virt') and strip_tpl(nd.get('cls', '')).endswith('listener') and nd.get('recv', -1) >= 0 and f.nodes[nd['recv']]['k'] != 'this':
                    self.direct.add(f.u)
        self.notifiers = {P.fns[u].cls for u in self.direct}

    def is_publish(self, f, nd):
        if nd['k'] != 'call':
            return False
        ts = self.P.targets(nd)
        return any(t.u in self.direct or t.u in self.wrap for t in ts)

    wrap = set()


class Run(Tracker):
    """core = (aborted, done, published, excused, dirty)
    dirty: some unit of work has been done since the flag was last tested"""

    def __init__(self, P, cls, abortf, donef, pub, fam):
        super().__init__(P)
        self.cls, self.abortf, self.donef, self.pub, self.fam = cls, abortf, donef, pub, fam
        self.locals_from_lock = {}

    def mine(self, fn, e):
        if not isinstance(e, int):
            return []
        nd = fn.nodes[e]
        if nd['k'] != 'call' or 'u' not in nd:
            return []
        return [t for t in self.P.targets(nd) if t.cls in self.fam and t.cls not in self.pub.notifiers and not self.pub.is_publish(fn, nd)]

    follow = mine

    def atom(self, fn, i, core):
        op = atomic_op(fn, i)
        if not (op and op[1] == 'load'):
            nd = fn.nodes[i]
            if not (nd['k'] == 'mem' and (nd['cls'], nd['n']) == self.abortf):
                return None
            op = (self.abortf, 'load')
        if op[0] != self.abortf:
            return None
        a, d, p, x, w = core
        if a:
            return [((1, d, p, x, 0), True)]
        return [((1, d, p, x, 0), True), ((0, d, p, x, 0), False)]

    def events(self, fn, e):
        if not isinstance(e, int):
            return
        nd = fn.nodes[e]
        op = atomic_op(fn, e)
        if op and op[0] == self.donef and op[1] in ('store', 'exchange') and op[2] >= 0 and is_true(fn, op[2]):
            yield 'done'
        if nd['k'] == 'call':
            if self.pub.is_publish(fn, nd):
                yield 'publish'

    def branch(self, fn, c, truth):
        c, truth = strip_not(fn, c, truth)
        nd = fn.nodes[c]
        a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd.get('c', [])
        p = None
        if nd.get('op') in ('==', '!=') and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if fn.nodes[y]['k'] == 'null':
                    p, isnull = x, (nd['op'] == '==') == truth
        elif nd['k'] == 'call' and name(nd) == 'operator bool':
            p, isnull = nd['recv'], not truth
        elif nd['k'] == 'call' and name(nd) == 'expired':
            yield 'gone' if truth else 'alive'
            return
        if p is not None and isnull and self.from_lock(fn, p):
            yield 'gone'

    def from_lock(self, fn, i):
        nd = fn.nodes[i]
        while nd['k'] in ('cast', 'ctor') and len(nd.get('c', [])) == 1:
            nd = fn.nodes[nd['c'][0]]
        if nd['k'] == 'ref' and nd.get('vk') == 'local':
            v = fn.locals.get(nd['d'])
            return bool(v and v['init'] >= 0 and self.from_lock(fn, v['init']))
        return nd['k'] == 'call' and name(nd) == 'lock' and 'weak_ptr' in nd.get('q', '')

    def step(self, s, sym, fn, e):
        a, d, p, x, w = s
        if sym == 'done':
            if a:
                self.error(fn, e, sym, 'an aborted computation is marked as done')
            return {(a, 1, p, x, w)}
        if sym == 'publish':
            if a:
                self.error(fn, e, sym, 'an aborted computation publishes its incomplete result')
            if p:
                self.error(fn, e, sym, 'a result is published more than once')
            if not d:
                self.error(fn, e, sym, 'a result is published before the task is marked as done')
            return {(a, d, 1, x, w)}
        if sym == 'gone':
            return {(a, d, p, 1, w)}


class Poll(Tracker):
    """A unit of work is not repeated before the abort flag is tested again.
    core: 0 polled, 1 work not followed by a poll"""

    def __init__(self, R, target):
        super().__init__(R.P)
        self.R, self.target = R, target
        self.at = {}

    def mine(self, fn, e):
        return self.R.mine(fn, e)

    follow = mine

    def atom(self, fn, i, core):
        a = self.R.atom(fn, i, (0, 0, 0, 0, 0))
        if a is None:
            return None
        return [(0, True), (0, False)]

    def events(self, fn, e):
        if (fn.u, e) == self.target:
            yield 'work'

    def step(self, s, sym, fn, e):
        if s == 1:
            self.error(fn, e, sym, 'repeated')
        return {1}


def work_calls(P, R, f):
    """Calls in loops of f that do a substantial part of the computation:
    library code outside the task class, with loops of its own below."""
    out = []
    for i, nd in f.calls():
        if nd['k'] != 'call' or nd.get('op') or R.mine(f, i) or R.pub.is_publish(f, nd):
            continue
        for t in P.targets(nd):
            if heavy(P, t):
                out.append(i)
                break
    return out


_heavy = {}


def heavy(P, t, seen=()):
    k = (id(P), t.u)
    if k in _heavy:
        return _heavy[k]
    if t.u in seen or len(seen) > 6:
        return False
    r = bool(not t.const and t.kind == 'method' and sum(len(b['el']) for b in t.blocks.values()) > 12)
    _heavy[k] = r
    return r


def check_polls(P, Res, A, root, f, seen):
    if f.u in seen:
        return
    seen.add(f.u)
    for i in work_calls(P, A, f):
        Q = Poll(A, (f.u, i))
        Q.exits(root, Q.start(0))
        Res.count('units of work')
        for (u, e, sym), (g, e2, msg) in Q.errors.items():
            Res.violation(f'{f.short}|poll|{f.text(i)}', f'{f.short}: {f.text(i)} can be repeated without testing whether the computation has been aborted', f.loc(i))
    for i, nd in f.calls():
        for t in A.mine(f, i):
            check_polls(P, Res, A, root, t, seen)


class Handler(Tracker):
    """A pair that receives a result: core = (launched, notified, excused)"""

    def __init__(self, P, cls, pub, tasks):
        super().__init__(P)
        self.cls, self.pub, self.tasks = cls, pub, tasks

    def events(self, fn, e):
        if not isinstance(e, int):
            return
        nd = fn.nodes[e]
        if nd['k'] == 'call':
            if is_launch(self.P, fn, nd):
                yield 'launch'
            elif self.announces(fn, nd):
                yield 'notify'

    def announces(self, fn, nd):
        """Notification of this object's own listeners."""
        ts = self.P.targets(nd)
        return any(t.u in self.pub.direct or t.u in self.pub.wrap for t in ts) and fn.nodes[nd.get('recv', -1)]['k'] == 'this' if nd.get('recv', -1) >= 0 else False

    def follow(self, fn, e):
        if not isinstance(e, int):
            return ()
        nd = fn.nodes[e]
        if nd['k'] != 'call' or is_launch(self.P, fn, nd) or self.announces(fn, nd):
            return ()
        return [t for t in self.P.targets(nd) if t.cls == self.cls and not t.const]

    def branch(self, fn, c, truth):
        c, truth = strip_not(fn, c, truth)
        nd = fn.nodes[c]
        a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd.get('c', [])
        p = None
        if nd.get('op') in ('==', '!=') and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if fn.nodes[y]['k'] == 'null':
                    p, isnull = x, (nd['op'] == '==') == truth
        elif nd['k'] == 'call' and name(nd) == 'operator bool' and 'ptr<' in nd.get('q', '') + nd.get('cls', ''):
            p, isnull = nd['recv'], not truth
        if p is not None and isnull:
            t = fn.nodes[p].get('t', '')
            if is_ptr(t) and not any(k in t for k in self.tasks):
                yield 'missing'

    def step(self, s, sym, fn, e):
        l, n, x = s
        if sym == 'launch':
            if l:
                self.error(fn, e, sym, 'two computations are launched for one result')
            if n:
                self.error(fn, e, sym, 'listeners are notified although another computation is launched')
            return {(1, n, x)}
        if sym == 'notify':
            if n:
                self.error(fn, e, sym, 'listeners are notified twice of one result')
            if l:
                self.error(fn, e, sym, 'listeners are notified although another computation is launched')
            return {(l, 1, x)}
        if sym == 'missing':
            return {(l, n, 1)}


def is_launch(P, fn, nd):
    """Submission of a task to the thread pool."""
    if nd['k'] != 'call' or len(nd.get('c', [])) != 1:
        return False
    q = strip_tpl(nd.get('q', ''))
    return q.endswith('thread_pool::run')


def run(P):
    R = Result()
    R.rule = RULE
    T = base_of(P)
    pub = Publisher(P)
    R.need(len(pub.direct), 3, 'functions that call listeners')
    # virtual notify functions that only forward to another one
    pub.wrap = set()
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.u in pub.direct or f.u in pub.wrap or not f.n.startswith('notify'):
                continue
            if any(t.u in pub.direct or t.u in pub.wrap for i, nd in f.calls() for t in P.targets(nd)) and sum(1 for s in stmts(f.body) if s.get('s') != 'block') <= 1:
                pub.wrap.add(f.u)
                ch = True
    # the flags
    abortf = donef = None
    for f in P.fns.values():
        if f.cls == T.name and f.n == 'abort':
            for i in range(len(f.nodes)):
                op = atomic_op(f, i)
                if op and op[1] in ('store', 'exchange') and op[2] >= 0:
                    abortf = op[0]
                    if not is_true(f, op[2]):
                        R.violation(f'{f.short}|value', f'{f.short} does not set the abort flag', f.loc(i))
        if f.cls == T.name and f.n == 'done':
            from cfgutil import returned_field
            donef = returned_field(P, f) or accessor_field(P, T.name, 'done')
    if not abortf or not donef:
        raise Broken('abort or done flag of the task class not found')
    for f in P.fns.values():
        if not f.cls or not P.is_a(f.cls, T.name):
            continue
        for i in range(len(f.nodes)):
            op = atomic_op(f, i)
            if op and op[0] in (abortf, donef) and op[1] in ('store', 'exchange') and op[2] >= 0:
                R.count('flag writes')
                if f.kind == 'ctor':
                    if not is_false(f, op[2]):
                        R.violation(f'{f.short}|init', f'{f.short} constructs a task whose {op[0][1]} flag is not false', f.loc(i))
                elif not is_true(f, op[2]):
                    R.violation(f'{f.short}|clear', f'{f.short} clears the {op[0][1]} flag of a task', f.loc(i))
        if f.kind == 'ctor' and f.cls == T.name:
            for fl in (abortf, donef):
                wr = [i for i in range(len(f.nodes)) if (atomic_op(f, i) or (None,))[0] == fl]
                it = [x for x in f.inits if x.get('f') == fl[1] and x.get('n', -1) >= 0]
                good = any(is_false(f, x['n']) for x in it if x.get('n', -1) >= 0) or any(is_false(f, atomic_op(f, i)[2]) for i in wr if atomic_op(f, i)[1] in ('store',))
                if not good:
                    R.violation(f'{f.short}|{fl[1]}', f'{f.short} leaves the {fl[1]} flag undetermined or set', f.loc())
    # the computations
    n = 0
    for c in sorted(P.derived[T.name]):
        fs = [f for f in P.fns.values() if f.cls == c and f.n == 'run' and not f.params]
        for f in fs:
            n += 1
            fam = {c} | set(b for b in P.all_bases(c) if b != T.name)
            A = Run(P, c, abortf, donef, pub, fam)
            st = A.cores(f, (0, 0, 0, 0, 1))
            R.sample(f'{f.short}: exit states {sorted(st)}')
            for a, d, p, x, w in st:
                if not a and not x and not (d and p):
                    R.violation(f'{f.short}|exit', f'{f.short}: a computation that was not aborted can end without being marked done and publishing its result', f.loc())
                if x and not a and p != d:
                    R.violation(f'{f.short}|exit', f'{f.short}: a computation can end done but unpublished, or published but not done', f.loc())
            for (u, e, sym), (g, e2, msg) in A.errors.items():
                R.violation(f'{g.short}|{msg}', f'{g.short}: {msg}', g.loc(e2))
            R.count('functions walked', len(A.visited))
            R.count('publications', A.hits['publish'])
            # first test before any work
            first = First(A)
            first.exits(f, first.start(0))
            for (u, e, sym), (g, e2, msg) in first.errors.items():
                R.violation(f'{g.short}|first', f'{g.short}: {msg}', g.loc(e2))
            check_polls(P, R, A, f, f, set())
    R.need(n, 3, 'background computations')
    R.need(R.counts['publications'], 3, 'publications')
    R.need(R.counts['units of work'], 3, 'units of work')
    # result handlers
    hs = 0
    tasks = {c.split('::')[-1] for c in P.derived[T.name]} | {TASK}
    for f in P.fns.values():
        if f.kind != 'method' or not f.cls or f.u in pub.wrap or f.u in pub.direct or f.const:
            continue
        m = P.method_info.get(f.u)
        if not m or not any(o in P.method_info and strip_tpl(P.method_info[o][0].name).endswith('listener') for o in m[1]['ov']):
            continue
        own = {f.cls} | set(P.all_bases(f.cls))
        if not (own & pub.notifiers):
            continue
        hs += 1
        H = Handler(P, f.cls, pub, tasks)
        st = H.cores(f, (0, 0, 0))
        R.sample(f'result handler {f.short}: {sorted(st)}')
        for l, nn, x in st:
            if not l and not nn and not x:
                R.violation(f'{f.short}|silent', f'{f.short}: a result can arrive without the next computation being launched or the listeners being notified', f.loc())
        for (u, e, sym), (g, e2, msg) in H.errors.items():
            R.violation(f'{g.short}|{msg}', f'{g.short}: {msg}', g.loc(e2))
    R.need(hs, 3, 'result handlers')
    R.count('result handlers', hs)
    return R


class First(Tracker):
    """core: 0 before the first test of the abort flag, 1 after it"""

    def __init__(self, A):
        super().__init__(A.P)
        self.A = A

    def follow(self, fn, e):
        return self.A.mine(fn, e)

    def atom(self, fn, i, core):
        if self.A.atom(fn, i, (0, 0, 0, 0, 0)) is None:
            return None
        return [(1, True), (1, False)]

    def events(self, fn, e):
        if not isinstance(e, int):
            return
        nd = fn.nodes[e]
        if nd['k'] == 'call' and not nd.get('op') and not self.A.mine(fn, e):
            if any(heavy(self.P, t) for t in self.P.targets(nd)):
                yield 'work'

    def step(self, s, sym, fn, e):
        if s == 0:
            self.error(fn, e, sym, 'the computation starts working before it tests whether it has been aborted')
        return None


if __name__ == '__main__':
    R = run(Prog())
    print(dict(R.counts))
    for s in R.samples:
        print('  ', s)
    for k, (m, l) in R.violations.items():
        print(l, m, k)
