"""C01: every access to lock-protected shared state happens under its lock.

Lockable class: a class that declares a std mutex (instance or static), or
inherits one, or is a base of such a class, or derives from thread_task.
Protected field: a field that some function other than a constructor or
destructor modifies, and that is neither a mutex, an atomic nor a thread
primitive.  Every access must hold the owning object's lock (exclusively to
modify); a function that does not hold it passes the obligation to its callers,
and the obligation must be discharged before it reaches a public entry point."""
from collections import defaultdict
from prog import Prog, strip_tpl, PUBLIC
from locks import LockFlow, is_mutex_type, ITER, GUARD
from access import classify, classify_iter

# fields that are written only before their object is shared
IMMUTABLE = ()


SYNC = ('std::atomic', 'std::condition_variable', 'std::once_flag', 'std::thread')


def mutex_fields(c):
    return [n for n, f in c.fields.items() if is_mutex_type(f['t'])]


def mutex_statics(c):
    return [n for n, f in c.statics.items() if is_mutex_type(f['t'])]


class Races:
    def __init__(self, prog):
        self.P = prog
        self.LF = LockFlow(prog)
        self.guard_of = {}       # class -> list of acceptable locks [(class, field, is_static)]
        self.unlockable = []
        self.violations = []
        self.stats = defaultdict(int)
        self.find_lockables()
        self.find_fields()

    def find_lockables(self):
        P = self.P
        own = {}
        for c in P.classes.values():
            ms = [(c.name, m, False) for m in mutex_fields(c)] + [(c.name, m, True) for m in mutex_statics(c)]
            if ms:
                own[c.name] = ms
        for c in P.classes.values():
            locks = list(own.get(c.name, []))
            for b in P.all_bases(c.name):
                locks += own.get(b, [])
            if locks:
                self.guard_of[c.name] = locks
        # bases of lockable classes share their objects' concurrency
        for c in list(self.guard_of):
            for b in P.all_bases(c):
                if b in P.classes and b not in self.guard_of:
                    self.guard_of[b] = []
        # background tasks
        for c in P.classes.values():
            if c.name not in self.guard_of and any(strip_tpl(b).endswith('thread_task') for b in [c.name] + P.all_bases(c.name)):
                self.guard_of[c.name] = []

    def is_init(self, fn):
        return fn.kind in ('ctor', 'dtor')

    def find_fields(self):
        """Fields of lockable classes modified outside construction."""
        P = self.P
        self.mutated = defaultdict(list)   # (class, field) -> witnesses
        self.restructured = set()          # fields replaced or resized outside construction
        self.accesses = defaultdict(list)  # fn.u -> [(node, cls, field, effect, static)]
        # functions only reachable from constructors are part of construction
        for f in P.fns.values():
            aliases = self.alias_roots(f)
            for i, nd in enumerate(f.nodes):
                acc = None
                if nd['k'] == 'mem' and nd['cls'] in self.guard_of:
                    acc = (nd['cls'], nd['n'], False)
                elif nd['k'] == 'ref' and nd.get('vk') == 'smem' and nd['cls'] in self.guard_of:
                    acc = (nd['cls'], nd['n'], True)
                if acc:
                    c = P.classes[acc[0]]
                    fld = (c.statics if acc[2] else c.fields).get(acc[1])
                    if not fld or self.is_sync(fld):
                        continue
                    eff = classify(f, i)
                    self.accesses[f.u].append((i, acc[0], acc[1], eff, acc[2], i))
                elif nd['k'] == 'ref' and nd.get('vk') in ('local',) and nd.get('d') in aliases:
                    src = aliases[nd['d']]
                    s = f.nodes[src]
                    vt = f.locals[nd['d']]['t']
                    eff = classify(f, i) if vt.endswith('&') and not ITER.search(vt) else classify_iter(f, i)
                    self.accesses[f.u].append((i, s['cls'], s['n'], eff, s['k'] == 'ref', src))
            for (i, c, n, eff, st, src) in self.accesses[f.u]:
                if eff not in ('write', 'rw', 'addr', 'retref'):
                    continue
                if self.is_init(f) and not st and self.LF.pt(f).path(f.nodes[src]['c'][0]) == ('this',):
                    continue      # an object under construction is not shared
                self.mutated[(c, n)].append((f, i, eff))
                if self.structural(f, i, src):
                    self.restructured.add((c, n))

    def structural(self, f, i, src):
        """Does the modification through node i change the field itself,
        rather than an element of the container?"""
        if i != src:
            v = f.locals[f.nodes[i]['d']]
            if v['init'] != src or ITER.search(v['t']):
                return False
        for p in f.parents.get(i, []):
            nd = f.nodes[p]
            if nd['k'] == 'memfn':
                continue
            if nd['k'] == 'call' and nd.get('recv') == i:
                nm = nd.get('q', '').split('::')[-1]
                if nd.get('op') in ('[]', '()') and not strip_tpl(nd.get('cls', '')).endswith('map') or nm in ('at', 'front', 'back', 'begin', 'end'):
                    return False
            if nd['k'] == 'sub' and nd['c'][0] == i:
                return False
        return True

    def size_query(self, f, i):
        for p in f.parents.get(i, []):
            nd = f.nodes[p]
            if nd['k'] == 'memfn':
                continue
            if nd['k'] == 'call' and nd.get('recv') == i and nd.get('q', '').split('::')[-1] in ('size', 'empty', 'size1', 'size2'):
                continue
            return False
        return bool(f.parents.get(i))

    def is_sync(self, fld):
        t = fld['t']
        return is_mutex_type(t) or any(s in t for s in SYNC) or fld.get('const')

    def alias_roots(self, f):
        """Local reference/iterator variables bound to a member field."""
        out = {}
        for d, v in f.locals.items():
            if v['init'] < 0:
                continue
            t = v['t']
            if not (t.endswith('&') or ITER.search(t)) or GUARD.match(t):
                continue
            i = v['init']
            for _ in range(12):
                nd = f.nodes[i]
                if nd['k'] == 'mem' and nd['cls'] in self.guard_of:
                    fld = self.P.classes[nd['cls']].fields.get(nd['n'])
                    if fld and not self.is_sync(fld):
                        # dereferencing a smart/raw pointer field leaves the object
                        out[d] = i
                    break
                if nd['k'] == 'ref' and nd.get('vk') == 'smem' and nd.get('cls') in self.guard_of:
                    fld = self.P.classes[nd['cls']].statics.get(nd['n'])
                    if fld and not self.is_sync(fld):
                        out[d] = i
                    break
                if nd['k'] == 'ref' and nd.get('vk') == 'local' and nd.get('d') in out:
                    out[d] = out[nd['d']]
                    break
                if nd['k'] == 'call' and nd.get('recv', -1) >= 0:
                    q = strip_tpl(nd.get('q', ''))
                    nm = q.split('::')[-1]
                    if nd.get('op') in ('->', '*') and 'ptr' in q:
                        break
                    if q.startswith(('std::', 'boost::', '__gnu_cxx::')) and (nm in ('begin', 'end', 'find', 'front', 'back', 'at', 'cbegin', 'cend', 'rbegin', 'lower_bound', 'upper_bound') or nd.get('op') in ('*', '[]', '()', '->')):
                        i = nd['recv']
                        continue
                    break
                if nd['k'] in ('ctor', 'cast') and len(nd.get('c', [])) == 1:
                    if nd['k'] == 'ctor' and not (ITER.search(nd.get('t', ''))):
                        break
                    i = nd['c'][0]
                    continue
                break
        return out

    def task_confined(self):
        """Fields of a background task that only its own run() touches after
        construction need no lock."""
        P = self.P
        users = defaultdict(set)
        for u, acc in self.accesses.items():
            for a in acc:
                users[(a[1], a[2])].add(u)
        for c in list(P.classes):
            if not any(strip_tpl(b).endswith('thread_task') for b in [c] + P.all_bases(c)):
                continue
            tops = {c} | set(P.all_bases(c))
            inside = {f.u for f in P.fns.values() if f.cls == c and f.n == 'run'}
            work = list(inside)
            while work:
                f = P.fns[work.pop()]
                for i, nd in f.calls():
                    for t in P.targets(nd):
                        if t.cls in tops and t.u not in inside and t.r.get('acc') != PUBLIC:
                            inside.add(t.u)
                            work.append(t.u)
            for k in list(self.prot):
                if k[0] == c and all(u in inside or self.is_init(P.fns[u]) for u in users[k]):
                    self.prot.discard(k)
                    self.stats['task-confined fields'] += 1

    # ---- obligations -----------------------------------------------------
    def locks_for(self, cls, static):
        """Locks that protect fields of cls: nearest declared first."""
        ls = self.guard_of.get(cls, [])
        if static:
            s = [l for l in ls if l[2]]
            return s or ls
        return ls

    def run(self):
        P, LF = self.P, self.LF
        self.prot = {k for k, w in self.mutated.items()} - set(IMMUTABLE)
        self.task_confined()
        helds = {}
        for f in P.fns.values():
            held = {}

            def visit(e, st, held=held):
                if isinstance(e, int):
                    if e in held:
                        held[e] = held[e] & st
                    else:
                        held[e] = st
            if f.u in self.accesses or any(True for _ in f.calls()):
                LF.scan(f, visit)
            helds[f.u] = held
        self.helds = helds
        leaves = defaultdict(list)
        for f in P.fns.values():
            pt = LF.pt(f)
            for (i, c, n, eff, st, src) in self.accesses.get(f.u, ()):
                if (c, n) not in self.prot or (strip_tpl(c).endswith('managed_obj') and n == '_keyID'):
                    continue
                if eff == 'read' and (c, n) not in self.restructured and self.size_query(f, i):
                    continue      # length fixed at construction
                owner = ('static',) if st else pt.path(f.nodes[src]['c'][0])
                h = helds[f.u].get(i)
                if h is None:
                    h = self.held_at(f, i)
                    if h is None:
                        self.stats['unreachable'] += 1
                        continue
                self.stats['accesses'] += 1
                leaves[(c, n)].append((f, i, owner, eff, st, h))
        self.lock_choice = {}
        for (c, n), acc in sorted(leaves.items()):
            cand = self.candidates(c)
            best = None
            for S in self.subsets(cand):
                out, under = self.check_field(c, n, acc, S)
                if best is None or len(out) < len(best[0]):
                    best = (out, S, under)
                if not out:
                    break
            self.lock_choice[(c, n)] = best[1]
            self.stats['under lock'] += best[2]
            for f, node, excl, trail in best[0]:
                leaf, lnode = (trail[0] if trail else (f, node))
                self.violations.append(dict(entry=f, node=node, leaf=leaf, leafnode=lnode, cls=c, field=n, mode=excl, trail=trail))
        return self.violations

    def candidates(self, cls):
        acceptable = list(self.guard_of.get(cls, []))
        if not acceptable:
            for d in sorted(self.P.derived.get(cls, ())):
                acceptable += self.guard_of.get(d, [])
        return sorted(set(acceptable))

    def subsets(self, cand):
        """Lock sets that may protect one field: writers hold all, readers any."""
        out = [(l,) for l in cand]
        out += [(a, b) for k, a in enumerate(cand) for b in cand[k + 1:]]
        return out or [()]

    def check_field(self, c, n, acc, S):
        """Violations of field (c, n) when it is protected by the locks S."""
        P = self.P
        reqs = defaultdict(dict)    # fn.u -> {(path, excl): (node, trail)}
        out = []
        under = 0
        for (f, i, owner, eff, st, h) in acc:
            if eff in ('addr', 'retref', 'retcref'):
                if eff != 'addr' and not (self.is_init(f)) and (f.r.get('acc', 0) == PUBLIC or f.kind == 'func'):
                    out.append((f, i, 'escape', ()))
                continue
            excl = eff in ('write', 'rw')
            have = self.have(h, owner, S, excl)
            if self.enough(have, S, excl):
                under += 1
                continue
            reqs[f.u].setdefault((owner, excl, have), (i, ()))
        done = set()
        pending = [(u, k) for u in reqs for k in reqs[u]]
        while pending:
            u, k = pending.pop()
            if (u, k) in done:
                continue
            done.add((u, k))
            f = P.fns[u]
            node, trail = reqs[u][k]
            owner, excl, have = k
            root = owner[0]
            if root == 'this' and len(owner) == 1 and self.is_init(f):
                self.stats['construction'] += 1
                continue
            if isinstance(root, tuple) and root[0] == 'l' and self.fresh(f, root[1]):
                self.stats['fresh object'] += 1
                continue
            callers = P.callers.get(u, [])
            lam = f.r.get('lambdaOf')
            if not (root == 'this' or (isinstance(root, tuple) and root[0] == 'p') or root == 'static'):
                out.append((f, node, excl, trail))
                continue
            if lam:
                par = P.fns.get(lam)
                if par is not None:
                    sites = [i for i, nd in enumerate(par.nodes) if nd['k'] == 'lambda' and nd['u'] == u]
                    sync = sites and all(self.sync_lambda(par, s) for s in sites)
                    if sync and root in ('this', 'static'):
                        for s in sites:
                            h = self.held_at(par, s)
                            more = have | self.have(h or (), owner, S, excl)
                            if self.enough(more, S, excl):
                                continue
                            reqs[lam].setdefault((owner, excl, more), (s, trail + ((f, node),)))
                            pending.append((lam, (owner, excl, more)))
                        continue
                out.append((f, node, excl, trail))
                continue
            if f.kind == 'func' and not f.r.get('stat') or f.r.get('acc', 0) == PUBLIC or not callers:
                if not (f.kind == 'func' and callers and f.r.get('local')):
                    out.append((f, node, excl, trail))
                    continue
            for g, ci in callers:
                own2 = self.map_owner(g, ci, f, owner)
                if own2 is None:
                    continue
                h = self.helds[g.u].get(ci)
                if h is None:
                    h = self.held_at(g, ci)
                if h is None:
                    continue
                self.stats['call obligations'] += 1
                more = have | self.have(h, own2, S, excl)
                if self.enough(more, S, excl):
                    continue
                key = (own2, excl, more)
                if len(own2) > 4 or len(trail) > 8:
                    continue
                if key not in reqs[g.u]:
                    reqs[g.u][key] = (ci, trail + ((f, node),))
                pending.append((g.u, key))
        return out, under

    def held_at(self, f, i):
        """Lockset at node i, looking up through enclosing expressions."""
        seen = set()
        st = [i]
        h = self.helds.get(f.u, {})
        while st:
            x = st.pop(0)
            if x in h:
                return h[x]
            if x in seen:
                continue
            seen.add(x)
            st.extend(f.parents.get(x, []))
        return None

    def sync_lambda(self, par, site):
        for p in par.parents.get(site, []):
            nd = par.nodes[p]
            if nd['k'] == 'call':
                q = nd.get('q', '')
                if 'thread' in q or nd.get('q', '').split('::')[-1] in ('emplace_back', 'push_back', 'async', 'emplace'):
                    return False
                return True
            if nd['k'] in ('ctor', 'cast'):
                return self.sync_lambda(par, p)
        return False

    def fresh(self, f, d):
        v = f.locals.get(d)
        if not v or v.get('param'):
            return False
        t = v['t']
        if t.endswith('&'):
            return False
        i = v['init']
        if i < 0:
            return not t.endswith('*')
        nd = f.nodes[i]
        for _ in range(6):
            if nd['k'] == 'new':
                return True
            if nd['k'] == 'ctor':
                if nd['cls'] in self.guard_of or (len(nd['c']) != 1):
                    return nd['cls'] in self.guard_of
                nd = f.nodes[nd['c'][0]]
                continue
            if nd['k'] == 'call':
                return nd.get('q', '').endswith(('make_shared', 'make_unique'))
            if nd['k'] == 'cast':
                nd = f.nodes[nd['c'][0]]
                continue
            return False
        return False

    def map_owner(self, g, ci, f, owner):
        nd = g.nodes[ci]
        root = owner[0]
        pt = self.LF.pt(g)
        if root == 'static':
            return owner
        if root == 'this':
            if nd['k'] == 'ctor':
                return None
            if nd.get('recv', -1) < 0:
                return None
            return pt.path(nd['recv']) + owner[1:]
        if isinstance(root, tuple) and root[0] == 'p':
            for k, p in enumerate(f.params):
                if p['d'] == root[1]:
                    a = nd.get('c', [])
                    if k < len(a):
                        return pt.path(a[k]) + owner[1:]
            return None
        return None

    def have(self, held, owner, S, excl):
        """Which locks of S does `held` contain for this owner (exclusively,
        when the access modifies)?"""
        return frozenset(l for l in S for h in held
                         if h.lock[1:] == l[:2] and (l[2] or h.lock[0] == owner) and (h.excl or not excl))

    def enough(self, have, S, excl):
        """Writers must hold every lock of S, readers any one of them."""
        return bool(S) and (len(have) == len(S) if excl else bool(have))


def describe(v):
    f, leaf = v['entry'], v['leaf']
    mode = {True: 'write', False: 'read', 'escape': 'reference escape'}[v['mode']]
    via = '' if leaf is f else f' (in {leaf.short} at {leaf.loc(v["leafnode"])})'
    return f"{mode} of {strip_tpl(v['cls']).split('::')[-1]}::{v['field']} without its lock, reachable through {f.short} at {f.loc(v['node'])}{via}"


if __name__ == '__main__':
    P = Prog()
    R = Races(P)
    vs = R.run()
    print(dict(R.stats), len(R.prot))
    for k in sorted(R.prot):
        print('  prot', k)
    for v in vs:
        print(describe(v))
