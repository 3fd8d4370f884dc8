"""C03: background tasks are counted, executed and released exactly once."""
from prog import Prog, strip_tpl, PUBLIC
from automaton import Automaton
from cfgutil import *
from result import Result, Broken

RULE = ('typestate over the CFG of the task and pool classes: the id is one atomic read-modify-write of a shared counter; every constructor '
        'counts the task once, every decrement is guarded by a test-and-set flag that is never cleared; a task is run inside catch-all handlers that do not '
        'rethrow, and is released after it on every path; every task taken from the queue is removed and started exactly once; every submitted task is queued; '
        'the pool stops, joins and drains in that order; waiting ends only when no task is active')

TASK = 'thread_task'


class Base(Automaton):
    def __init__(self, P, R, cls):
        super().__init__(P)
        self.R = R
        self.cls = cls
        self.done_keys = set()

    def own(self, fn, e):
        """Calls into the same class (or lambdas run here)."""
        if not isinstance(e, int):
            return ()
        nd = fn.nodes[e]
        if nd['k'] in ('call', 'ctor') and 'u' in nd:
            return [t for t in self.P.targets(nd) if t.cls == self.cls and not nd.get('virt')]
        return ()

    follow = own


class Counting(Base):
    """Net effect of a constructor on the active counter."""

    def __init__(self, P, R, cls, counter):
        super().__init__(P, R, cls)
        self.counter = counter

    def events(self, fn, e):
        if isinstance(e, int):
            op = atomic_op(fn, e)
            if op and op[0] == self.counter and op[1] in ('inc', 'dec'):
                yield op[1]

    def step(self, s, sym, fn, e):
        return {max(-3, min(3, s + (1 if sym == 'inc' else -1)))}


class Guarded(Base):
    """Decrements happen only where the once-flag was just set."""

    def __init__(self, P, R, cls, counter):
        super().__init__(P, R, cls)
        self.counter = counter
        self.flags = set()

    def events(self, fn, e):
        if isinstance(e, int):
            op = atomic_op(fn, e)
            if op and op[0] == self.counter and op[1] == 'dec':
                yield 'dec'

    def branch(self, fn, c, truth):
        c, truth = strip_not(fn, c, truth)
        op = atomic_op(fn, c) if fn.nodes[c]['k'] in ('call',) else None
        if op and op[0][0] == self.cls:
            if op[1] == 'exchange' and (op[2] < 0 or is_true(fn, op[2])) and not truth:
                self.flags.add(op[0])
                yield 'won'
            elif op[1] == 'cas' and truth:
                self.flags.add(op[0])
                yield 'won'

    def step(self, s, sym, fn, e):
        if sym == 'won':
            return {1}
        if sym == 'dec':
            if s != 1:
                self.error(fn, e, 'dec', 'the active-task counter is decremented without first winning the once-only flag, so a task may be discounted twice')
            return {0}


class Running(Base):
    """run() exactly once, then release."""

    def __init__(self, P, R, cls, runs, releases):
        super().__init__(P, R, cls)
        self.runs = runs
        self.releases = releases

    def events(self, fn, e):
        if isinstance(e, int) and fn.nodes[e]['k'] == 'call':
            u = fn.nodes[e].get('u')
            if u in self.runs:
                yield 'run'
            elif u in self.releases:
                yield 'release'

    def step(self, s, sym, fn, e):
        run, rel = s
        if sym == 'run':
            if run:
                self.error(fn, e, sym, 'the task is run a second time')
            if rel:
                self.error(fn, e, sym, 'the task is run after it stopped counting as active')
            return {(1, rel)}
        return {(run, 1)}

    def follow(self, fn, e):
        return [t for t in self.own(fn, e) if t.u not in self.releases]


def sp_task(t):
    return 'shared_ptr<' in t and TASK in t


class Worker(Base):
    """front / pop / start bookkeeping of one taken task.
    state: (front seen, disposed, popped, local pointer non-null)"""

    def __init__(self, P, R, cls, queue, starts, releases):
        super().__init__(P, R, cls)
        self.queue, self.starts, self.releases = queue, starts, releases

    def events(self, fn, e):
        if not isinstance(e, int):
            return
        nd = fn.nodes[e]
        if nd['k'] == 'call':
            nm = name(nd)
            if nd.get('recv', -1) >= 0 and field_of(fn, nd['recv']) == self.queue:
                if nm in ('front', 'top'):
                    yield 'front'
                elif nm in ('pop', 'pop_front', 'erase'):
                    yield 'pop'
                elif nm in ('clear', 'swap'):
                    yield 'bulk'
            if nd.get('u') in self.starts:
                yield 'start'
            elif nd.get('u') in self.releases:
                yield 'release'
            elif nd.get('op') == '=' and nd.get('recv', -1) >= 0 and sp_task(fn.nodes[nd['recv']].get('t', '')) and fn.nodes[nd['recv']]['k'] == 'ref':
                yield 'null' if nd['c'] and fn.nodes[nd['c'][0]]['k'] == 'null' else 'bind'
            elif nm == 'reset' and nd.get('recv', -1) >= 0 and sp_task(fn.nodes[nd['recv']].get('t', '')):
                yield 'null'
        elif nd['k'] == 'decl':
            for v in nd['vars']:
                if sp_task(v['t']) and not v['t'].endswith('&'):
                    ini = fn.nodes[v['init']] if v['init'] >= 0 else None
                    yield 'null' if ini is None or ini['k'] == 'ctor' and not ini['c'] or ini['k'] == 'null' else 'bind'

    def branch(self, fn, c, truth):
        from nullness import is_ptr
        c, truth = strip_not(fn, c, truth)
        nd = fn.nodes[c]
        a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd.get('c', [])
        op = nd.get('op')
        p = None
        if op in ('==', '!=') and len(a) == 2:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if fn.nodes[y]['k'] == 'null':
                    p, nonnull = x, (op == '!=') == truth
        elif nd['k'] == 'call' and name(nd) == 'operator bool':
            p, nonnull = nd['recv'], truth
        if p is not None and sp_task(fn.nodes[p].get('t', '')):
            yield ('nonnull' if nonnull else 'isnull')

    def step(self, s, sym, fn, e):
        f, d, p, v = s
        if sym == 'front':
            if p and not d:
                self.error(fn, e, sym, 'a task removed from the queue is dropped without being started')
            return {(1, d if not p else 0, 0, v)}
        if sym == 'pop':
            if not f:
                self.error(fn, e, sym, 'a task is removed from the queue without being kept, so it never runs')
            return {(0, 0, 0, v)} if d else {(1, 0, 1, v)}
        if sym in ('start', 'release'):
            if not f:
                self.error(fn, e, sym, 'a task is started again, or started without having been taken from the queue')
            return {(0, 0, 0, v)} if p else {(1, 1, 0, v)}
        if sym == 'bind':
            return {(f, d, p, f)}
        if sym == 'null':
            return {(f, d, p, 0)}
        if sym == 'nonnull':
            return {s} if v else set()
        if sym == 'isnull':
            return {s} if not v else ({(0, 0, 0, 0)} if False else set())
        if sym == 'bulk':
            if not d:
                self.error(fn, e, sym, 'queued tasks are discarded without being started or released')
            return {(0, 0, 0, v)}

    def finish(self, fn, exits):
        for f, d, p, v in exits:
            if p and not d:
                self.error(fn, -1, 'exit', 'a task removed from the queue is dropped without being started')
            elif f and d and not p:
                self.error(fn, -1, 'exit', 'a started task stays in the queue and will be started again')


class Shutdown(Base):
    """stop, join, drain"""

    def __init__(self, P, R, cls, queue, runflags, threads, releases):
        super().__init__(P, R, cls)
        self.queue, self.runflags, self.threads, self.releases = queue, runflags, threads, releases

    def events(self, fn, e):
        if not isinstance(e, int):
            return
        op = atomic_op(fn, e)
        if op and op[0] in self.runflags and op[1] in ('store', 'exchange') and op[2] >= 0:
            yield 'stop' if is_false(fn, op[2]) else 'restart'
        nd = fn.nodes[e]
        if nd['k'] == 'call' and strip_tpl(nd.get('q', '')) == 'std::thread::join':
            yield 'join'
        if nd['k'] == 'call' and strip_tpl(nd.get('q', '')) == 'std::thread::detach':
            yield 'detach'

    def branch(self, fn, c, truth):
        c0, t0 = strip_not(fn, c, truth)
        nd = fn.nodes[c0]
        if nd['k'] == 'call' and name(nd) == 'empty' and field_of(fn, nd['recv']) == self.queue and t0:
            yield 'drained'
        for b in fn.blocks.values():
            if b.get('lc', b.get('tc')) == c and not truth:
                s = loop_of(fn, b)
                if s is not None and any(fn.nodes[x]['k'] == 'call' and strip_tpl(fn.nodes[x].get('q', '')) == 'std::thread::join' for x in stmt_nodes(fn, s['body'])):
                    yield 'joined'

    def step(self, s, sym, fn, e):
        stop, joined, drained = s
        if sym == 'stop':
            return {(1, joined, drained)}
        if sym == 'restart':
            return {(0, joined, drained)}
        if sym == 'join':
            if not stop:
                self.error(fn, e, sym, 'worker threads are joined before they are told to stop')
            return None
        if sym == 'detach':
            self.error(fn, e, sym, 'a worker thread is detached and may outlive the pool')
            return None
        if sym == 'joined':
            return {(stop, 1, drained)}
        if sym == 'drained':
            return {(stop, joined, 1 if joined else 0)}

    def finish(self, fn, exits):
        for stop, joined, drained in exits:
            if not stop:
                self.error(fn, -1, 'stop', 'the pool is destroyed without telling its workers to stop')
            if not joined:
                self.error(fn, -1, 'join', 'the pool is destroyed without joining its workers')
            if not drained:
                self.error(fn, -1, 'drain', 'tasks left in the queue stay counted as active after the pool is destroyed')


class Pushing(Base):
    def __init__(self, P, R, cls, queue):
        super().__init__(P, R, cls)
        self.queue = queue

    def events(self, fn, e):
        if isinstance(e, int):
            nd = fn.nodes[e]
            if nd['k'] == 'call' and nd.get('recv', -1) >= 0 and field_of(fn, nd['recv']) == self.queue and name(nd) in ('push', 'push_back', 'emplace', 'emplace_back'):
                yield 'push'

    branch = Worker.branch

    def step(self, s, sym, fn, e):
        if sym == 'push':
            if s == 1:
                self.error(fn, e, sym, 'a submitted task is queued twice')
            return {1} if s != 'null' else {s}
        if sym == 'isnull':
            return {'null'}


class Waiting(Base):
    """wait() returns only after seeing an active count of zero"""

    def __init__(self, P, R, cls, active):
        super().__init__(P, R, cls)
        self.active = active

    def value(self, fn, c, n):
        nd = fn.nodes[c]
        k = nd['k']
        if k == 'cast':
            return self.value(fn, nd['c'][0], n)
        if k == 'lit' and isinstance(nd['v'], (int, bool)):
            return nd['v']
        if k == 'un' and nd['op'] == '!':
            v = self.value(fn, nd['c'][0], n)
            return None if v is None else not v
        if k == 'bin' and nd['op'] in ('<', '>', '<=', '>=', '==', '!='):
            a, b = self.value(fn, nd['c'][0], n), self.value(fn, nd['c'][1], n)
            if a is None or b is None:
                return None
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[nd['op']]
        if self.is_count(fn, c):
            return n
        if k == 'call' and nd.get('recv', -1) >= 0 and (name(nd).startswith('operator ') or name(nd) == 'load'):
            return self.value(fn, nd['recv'], n)
        return None

    def is_count(self, fn, c):
        nd = fn.nodes[c]
        if nd['k'] == 'call' and nd.get('u') in self.active:
            return True
        return nd['k'] == 'ref' and field_of(fn, c) == self.counter

    def branch(self, fn, c, truth):
        if not any(self.is_count(fn, x) for x in fn.walk(c)):
            return
        v0, v1 = self.value(fn, c, 0), self.value(fn, c, 1)
        if v0 is not None and v0 == truth and v1 != truth:
            yield 'zero'
        else:
            yield 'maybe'

    def step(self, s, sym, fn, e):
        return {1 if sym == 'zero' else 0}


def run(P):
    R = Result()
    R.rule = RULE
    T = P.cls_by_name(TASK)
    pools = [c for c in P.classes.values() if any(sp_task(f['t']) and any(k in f['t'] for k in ('queue<', 'deque<', 'list<', 'vector<')) for f in c.fields.values())]
    if T is None or not pools:
        raise Broken('task or pool class not found')
    fns = [f for f in P.fns.values() if f.cls == T.name]
    counter = accessor_field(P, T.name, 'num_active')
    idf = accessor_field(P, T.name, 'id')
    if not counter or not idf:
        raise Broken('active counter or id of the task class not found')
    R.sample(f'active counter {counter[1]}, identifier {idf[1]}')

    def flush(A):
        for (u, n, sym), (fn, e, msg) in A.errors.items():
            R.violation(f'{fn.short}|{msg}', f'{fn.short}: {msg}', fn.loc(e))
        R.count('functions walked', len(A.visited))
        for k, n in A.hits.items():
            R.count(f'{type(A).__name__} events', n)

    # identifiers
    ctors = [f for f in fns if f.kind == 'ctor' and not f.r.get('cm')]
    R.need(len(ctors), 1, 'task constructors')
    nexts = set()

    def id_source(fn, i, depth=0):
        nd = fn.nodes[i]
        while nd['k'] in ('cast', 'init', 'ctor') and len(nd.get('c', [])) == 1:
            i = nd['c'][0]
            nd = fn.nodes[i]
        op = atomic_op(fn, i)
        if op and op[1] == 'inc':
            c = P.classes.get(op[0][0])
            fl = c.statics.get(op[0][1]) if c else None
            if fl and 'atomic' in fl['t']:
                nexts.add(op[0])
                return True
        if nd['k'] == 'ref' and nd.get('vk') == 'local':
            v = fn.locals.get(nd['d'])
            if v and v['init'] >= 0 and not reassigned(fn, nd['d']):
                return id_source(fn, v['init'], depth + 1)
        if nd['k'] == 'call' and depth < 4:
            from locks import simple_return
            ts = P.targets(nd)
            return bool(ts) and all(simple_return(t) >= 0 and id_source(t, simple_return(t), depth + 1) for t in ts)
        return False
    for f in P.fns.values():
        for i in range(len(f.nodes)):
            op = atomic_op(f, i)
            if op and op[0] == idf and op[1] != 'load':
                R.count('identifier writes')
                if f.kind != 'ctor' or f.cls != T.name:
                    R.violation(f'{f.short}|id', f'{f.short} changes the identifier of a task after construction', f.loc(i))
                elif op[1] != 'store' or not id_source(f, op[2]):
                    R.violation(f'{f.short}|id', f'{f.short} does not take the identifier from one atomic read-modify-write of a shared counter, so two tasks can get the same identifier', f.loc(i))
    for f in ctors:
        for it in f.inits:
            if it.get('f') == idf[1] and it.get('n', -1) >= 0 and (it.get('w') or it.get('inclass')):
                R.count('identifier writes')
                if not id_source(f, it['n']) and not any((lambda op: op and op[0] == idf and op[1] != 'load')(atomic_op(f, i)) for i in range(len(f.nodes))):
                    R.violation(f'{f.short}|id', f'{f.short} does not take the identifier from one atomic read-modify-write of a shared counter, so two tasks can get the same identifier', f.loc(it['n']))
    R.need(R.counts['identifier writes'], 1, 'identifier writes')
    for f in P.fns.values():
        for i in range(len(f.nodes)):
            op = atomic_op(f, i)
            if op and op[0] in nexts and op[1] in ('store', 'exchange', 'dec', 'cas'):
                R.violation(f'{f.short}|next', f'{f.short} sets the identifier counter back, so identifiers repeat', f.loc(i))
            if op and op[0] == counter and op[1] in ('store', 'exchange', 'cas'):
                R.violation(f'{f.short}|counter', f'{f.short} overwrites the active-task counter', f.loc(i))
            if op and op[0] == counter and op[1] in ('inc', 'dec'):
                R.count('counter updates')
                if f.cls != T.name:
                    R.violation(f'{f.short}|counter', f'{f.short} changes the active-task counter from outside the task class', f.loc(i))
                if op[2] >= 0 and not is_true(f, op[2]):
                    R.violation(f'{f.short}|counter', f'{f.short} changes the active-task counter by something other than one', f.loc(i))
    R.need(R.counts['counter updates'], 2, 'updates of the active counter')
    if 'atomic' not in T.statics[counter[1]]['t']:
        R.violation('counter', 'the active-task counter is not atomic', f'{T.file}:{T.line}')

    # counting
    A = Counting(P, R, T.name, counter)
    for f in ctors:
        ex = A.exits(f, 0)
        if set(ex) != {1}:
            R.violation(f'{f.short}|count', f'{f.short} changes the active-task count by {sorted(ex)} instead of exactly one', f.loc())
    flush(A)
    G = Guarded(P, R, T.name, counter)
    roots = [f for f in fns if f.r.get('acc', 0) == PUBLIC or f.kind in ('ctor', 'dtor') or any(g.cls != T.name for g, _ in P.callers.get(f.u, ()))]
    for f in roots:
        G.exits(f, 0)
    flush(G)
    for fl in G.flags:
        for f in P.fns.values():
            for i in range(len(f.nodes)):
                op = atomic_op(f, i)
                if op and op[0] == fl and op[1] in ('store', 'exchange') and op[2] >= 0 and is_false(f, op[2]) and f.kind != 'ctor':
                    R.violation(f'{f.short}|flag', f'{f.short} clears the flag that makes a task count only once', f.loc(i))
    # functions that discount a task
    rel = set()
    for f in fns:
        if f.kind in ('ctor', 'dtor'):
            continue
        for i in range(len(f.nodes)):
            op = atomic_op(f, i)
            if op and op[0] == counter and op[1] == 'dec':
                rel.add(f.u)
    R.need(len(G.flags), 1, 'once-only flags')
    dt = [f for f in fns if f.kind == 'dtor']
    class Dt(Running):
        def step(self, s, sym, fn, e):
            return {(0, 1)} if sym == 'release' else None
    D = Dt(P, R, T.name, set(), rel)
    if not dt:
        R.violation('dtor', 'a task that is destroyed without having run stays counted as active: the task class has no destructor that releases it', f'{T.file}:{T.line}')
    for f in dt:
        if any(s != (0, 1) for s in D.exits(f, (0, 0))):
            R.violation(f'{f.short}|release', f'{f.short} leaves a task that never ran counted as active', f.loc())

    # running
    runs = {m['u'] for m in T.methods if m['n'] == 'run'}
    for u in list(runs):
        runs |= P.overriders.get(u, set())
    callers = {}
    for f in P.fns.values():
        for i, nd in f.calls():
            if nd.get('u') in runs and strip_tpl(nd.get('cls', '')).split('::')[-1] == TASK or (nd.get('u') in runs and nd['k'] == 'call'):
                callers.setdefault(f.u, []).append(i)
    R.need(len(callers), 1, 'callers of run()')

    def contained(f, i, seen=()):
        for h in f.handlers.get(i, ()):
            if f.blocks[h].get('catch') == '...':
                return None
        if f.u in seen:
            return None
        cs = P.callers.get(f.u, [])
        if f.cls != T.name and f.u in callers:
            return (f, i)
        if not cs or f.r.get('acc', 0) == PUBLIC:
            return (f, i)
        for g, j in cs:
            if g.cls != T.name:
                return (f, i)
            r = contained(g, j, seen + (f.u,))
            if r:
                return r
        return None
    starts = set()
    for u, sites in callers.items():
        f = P.fns[u]
        for i in sites:
            R.count('run() call sites')
            r = contained(f, i)
            if r:
                R.violation(f'{f.short}|contain', f'{f.short}: an exception thrown by the task can escape into the worker thread (no catch-all handler around this call)', f.loc(i))
        # top of the start chain inside the task class
        st = [f]
        while st:
            x = st.pop()
            up = [g for g, _ in P.callers.get(x.u, []) if g.cls == T.name and g.u != x.u]
            if up:
                st.extend(up)
            else:
                starts.add(x.u)
    for u in starts:
        f = P.fns[u]
        for b in f.blocks.values():
            if 'catch' in b:
                seen, st = set(), [b['id']]
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    for e in f.blocks[x]['el']:
                        if isinstance(e, int) and f.nodes[e]['k'] == 'throw':
                            R.violation(f'{f.short}|rethrow', f'{f.short}: an exception handler around the task throws again', f.loc(e))
                    st.extend(y for y in f.blocks[x]['su'] if y >= 0)
        if f.cls != T.name:
            R.violation(f'{f.short}|bypass', f'{f.short} runs a task directly, outside the code that contains its exceptions and counts it', f.loc(callers.get(u, [-1])[0]))
            continue
        A = Running(P, R, T.name, runs, rel)
        for s in A.exits(f, (0, 0)):
            if not s[1]:
                R.violation(f'{f.short}|release', f'{f.short}: a path ends without discounting the task from the active tasks', f.loc())
            if not s[0]:
                R.violation(f'{f.short}|run', f'{f.short}: a path ends without running the task', f.loc())
        flush(A)

    # the pool
    taken = pushed = 0
    for C in pools:
        for qn_, fl in C.fields.items():
            if not (sp_task(fl['t']) and any(k in fl['t'] for k in ('queue<', 'deque<', 'list<', 'vector<'))):
                continue
            q = (C.name, qn_)
            members = [f for f in P.fns.values() if f.cls == C.name or (f.r.get('lambdaOf') and P.fns.get(f.r['lambdaOf']) and P.fns[f.r['lambdaOf']].cls == C.name)]
            runflags = {(C.name, n) for n, x in C.fields.items() if 'bool' in x['t']}
            for f in members:
                names = {name(f.nodes[i]) for i in range(len(f.nodes)) if f.nodes[i]['k'] == 'call' and f.nodes[i].get('recv', -1) >= 0 and field_of(f, f.nodes[i]['recv']) == q}
                calls_start = any(nd.get('u') in starts for _, nd in f.calls())
                helper = f.r.get('acc', 0) != PUBLIC and f.kind == 'method' and not f.r.get('lambdaOf')
                if (names & {'pop', 'front', 'pop_front', 'clear', 'swap', 'erase'} or calls_start) and not helper:
                    taken += 1
                    A = Worker(P, R, C.name, q, starts, rel)
                    A.finish(f, A.exits(f, (0, 0, 0, 0)))
                    flush(A)
                    R.sample(f'tasks taken in {f.short}')
                if f.n == 'run':
                    pushed += 1
                    A = Pushing(P, R, C.name, q)
                    for s in A.exits(f, 0):
                        if s == 0:
                            R.violation(f'{f.short}|push', f'{f.short}: a path returns without queueing the submitted task', f.loc())
                    flush(A)
                if f.kind == 'dtor':
                    A = Shutdown(P, R, C.name, q, runflags, None, rel)
                    A.finish(f, A.exits(f, (0, 0, 0)))
                    flush(A)
            if not any(f.kind == 'dtor' for f in members):
                R.violation('pool dtor', 'the pool has no destructor that stops and joins its workers', f'{C.file}:{C.line}')
    R.need(taken, 2, 'functions taking tasks from the queue')
    R.need(pushed, 1, 'functions submitting tasks')

    # waiting
    act = {f.u for f in fns if f.n == 'num_active'}
    ws = [f for f in fns if f.n == 'wait']
    R.need(len(ws), 1, 'wait functions')
    for f in ws:
        A = Waiting(P, R, T.name, act)
        A.counter = counter
        if any(s != 1 for s in A.exits(f, 0)):
            R.violation(f'{f.short}|wait', f'{f.short} can return although tasks are still active', f.loc())
        flush(A)
    return R
