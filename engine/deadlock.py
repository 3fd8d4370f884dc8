"""C02: lock order, re-acquisition, waiting and callbacks under a lock."""
import re
from collections import defaultdict
from prog import Prog, strip_tpl
from locks import LockFlow

WAITS = ('std::thread::join', 'std::future::wait', 'std::future::get', 'usml::threads::thread_task::wait',
         'std::this_thread::sleep_for', 'std::this_thread::sleep_until', 'usml::threads::thread_task::sleep',
         'std::condition_variable_any::wait', 'std::condition_variable::wait')
CV = ('std::condition_variable_any::wait', 'std::condition_variable::wait')


def lname(l):
    return strip_tpl(l[1]).split('::')[-1] + '::' + l[2]


class Deadlock:
    def __init__(self, prog):
        self.P = prog
        self.LF = LockFlow(prog)
        self.violations = []
        self.stats = defaultdict(int)

    def is_listener_call(self, nd):
        """Call of a listener interface method (pure virtual, meant to be
        implemented by client code)."""
        if not nd.get('virt'):
            return False
        info = self.P.method_info.get(nd.get('u'))
        if not info or nd.get('ithis'):
            return False
        c, m = info
        return strip_tpl(c.name).split('::')[-1].endswith('listener')

    def downward(self, tr):
        """Is the other object reached through the host's list of children?"""
        for f, n in tr:
            if not isinstance(n, int) or n < 0:
                continue
            nd = f.nodes[n]
            r = nd.get('recv', -1)
            if r < 0:
                continue
            for x in f.walk(r):
                y = f.nodes[x]
                if y['k'] == 'mem' and strip_tpl(y.get('cls', '')).endswith('linkage'):
                    return True
                if y['k'] == 'ref' and y.get('vk') == 'local':
                    v = f.locals.get(y['d'])
                    if v and v['init'] >= 0:
                        for z in f.walk(v['init']):
                            w = f.nodes[z]
                            if w['k'] == 'mem' and strip_tpl(w.get('cls', '')).endswith('linkage'):
                                return True
        return False

    def destructions(self):
        """(fn.u, element index key) -> destructors that may run there because
        the last owner of an object lets go of it."""
        from nullness import Nullness
        P = self.P
        N = Nullness(P)
        byname = {c.name: c for c in P.classes.values()}
        cache = {}

        def dtors(t):
            if t in cache:
                return cache[t]
            out = []
            if not t.endswith(('&', '*')):
                for c in P.classes:
                    if c in t and re.search(r'(?<![\w:])' + re.escape(c) + r'(?![\w:])', t):
                        for d in {c} | P.derived.get(c, set()):
                            for f in P.fns.values():
                                if f.kind == 'dtor' and f.cls == d:
                                    out.append(f)
            cache[t] = out
            return out
        self.dtor_at = {}
        for f in P.fns.values():
            def visit(e, st, f=f):
                t = None
                if isinstance(e, dict):
                    if 'dtor' in e and 'weak_ptr' not in e['t']:
                        v = f.locals.get(e['dtor'])
                        if st.get((('v', e['dtor']),)) == 'N':
                            return
                        t = e['t']
                        # a local owner that shares its object with someone
                        # else is not the last one
                        if 'shared_ptr' in t:
                            return
                    key = ('d', e.get('dtor'), e.get('l'))
                else:
                    nd = f.nodes[e]
                    key = e
                    if nd['k'] == 'del':
                        t = nd.get('dt')
                    elif nd['k'] == 'call' and nd.get('recv', -1) >= 0:
                        nm = nd.get('q', '').split('::')[-1]
                        rt = f.nodes[nd['recv']].get('t', '')
                        if nm in ('reset', 'operator=') and ('unique_ptr<' in rt or 'shared_ptr<' in rt):
                            p = N.path(f, nd['recv'])
                            if p is not None and st.get(p) == 'N':
                                return
                            t = rt
                        elif nm in ('erase', 'clear', 'pop', 'pop_front', 'pop_back') and ('unique_ptr<' in rt or 'shared_ptr<' in rt):
                            t = rt
                if t:
                    t = t.replace('const ', '').rstrip('& ')
                    ds = dtors(t)
                    if ds:
                        self.dtor_at[(f.u, key)] = ds
            N.scan(f, visit)

    def summaries(self):
        """fn -> {lock key: (excl, trail)}, lock owner expressed relative to
        the function ('this', params) or opaque."""
        P, LF = self.P, self.LF
        self.destructions()
        self.dtor_by = defaultdict(list)
        for (u, key), ds in self.dtor_at.items():
            self.dtor_by[u].append(((u, key), ds))
            self.stats['destruction sites'] += 1
        acq = {u: {} for u in P.fns}
        waits = {u: None for u in P.fns}
        cbs = {u: None for u in P.fns}
        for f in P.fns.values():
            for node, lk, ex, st in LF.acquisitions(f):
                k = self.norm(lk)
                self.stats['acquisition sites'] += 1
                acq[f.u].setdefault((k, ex), ((f, node),))
            for i, nd in f.calls():
                q = strip_tpl(nd.get('q', ''))
                if q in WAITS and not q in CV:
                    waits[f.u] = waits[f.u] or (q, ((f, i),))
                if self.is_listener_call(nd):
                    cbs[f.u] = cbs[f.u] or (q, ((f, i),))
                    self.stats['listener calls'] += 1
        changed = True
        n = 0
        while changed and n < 30:
            changed = False
            n += 1
            for f in P.fns.values():
                for i, nd in f.calls():
                    if self.deferred(f, i):
                        continue
                    if self.is_listener_call(nd) and False:
                        continue
                    for t in P.targets(nd):
                        for (k, ex), tr in list(acq[t.u].items()):
                            k2 = self.map(f, i, nd, t, k)
                            if (k2, ex) not in acq[f.u] and len(tr) < 12:
                                acq[f.u][(k2, ex)] = ((f, i),) + tr
                                changed = True
                        if waits[t.u] and not waits[f.u]:
                            waits[f.u] = (waits[t.u][0], ((f, i),) + waits[t.u][1])
                            changed = True
                        if cbs[t.u] and not cbs[f.u]:
                            cbs[f.u] = (cbs[t.u][0], ((f, i),) + cbs[t.u][1])
                            changed = True
                for (u, key), ds in self.dtor_by.get(f.u, ()):
                    i = key if isinstance(key, int) else -1
                    for t in ds:
                        for (k, ex), tr in list(acq[t.u].items()):
                            k2 = k if k[0][0] == 'static' else ((('?',),), k[1], k[2])
                            if (k2, ex) not in acq[f.u] and len(tr) < 12:
                                acq[f.u][(k2, ex)] = ((f, i),) + tr
                                changed = True
                        if waits[t.u] and not waits[f.u]:
                            waits[f.u] = (waits[t.u][0], ((f, i),) + waits[t.u][1])
                            changed = True
                        if cbs[t.u] and not cbs[f.u]:
                            cbs[f.u] = (cbs[t.u][0], ((f, i),) + cbs[t.u][1])
                            changed = True
                # synchronous lambdas
                for i, nd in enumerate(f.nodes):
                    if nd['k'] == 'lambda' and nd['u'] in P.fns and not self.thread_lambda(f, i):
                        t = P.fns[nd['u']]
                        for (k, ex), tr in list(acq[t.u].items()):
                            if (k, ex) not in acq[f.u] and len(tr) < 12:
                                acq[f.u][(k, ex)] = ((f, i),) + tr
                                changed = True
        return acq, waits, cbs

    def thread_lambda(self, f, i):
        """Lambda stored or handed to a thread, hence not run here."""
        for p in f.parents.get(i, []):
            nd = f.nodes[p]
            if nd['k'] == 'decl':
                return True
            if nd['k'] == 'call':
                q = nd.get('q', '')
                return 'thread' in q or q.split('::')[-1] in ('emplace_back', 'push_back', 'async', 'emplace')
            if nd['k'] in ('ctor', 'cast'):
                if 'std::thread' in nd.get('q', ''):
                    return True
                return self.thread_lambda(f, p)
        return False

    def deferred(self, f, i):
        return False

    def norm(self, lk):
        path, c, m = lk
        if path[0] == 'this' or path[0] == 'static' or (isinstance(path[0], tuple) and path[0][0] == 'p'):
            return (path if len(path) <= 3 else (('?',),), c, m)
        return ((('?',),), c, m)

    def map(self, g, ci, nd, t, k):
        path, c, m = k
        root = path[0]
        pt = self.LF.pt(g)
        if root == 'static' or root == ('?',):
            return k
        if root == 'this':
            if nd['k'] == 'ctor' or nd.get('recv', -1) < 0:
                return ((('?',),), c, m)
            return self.normg((pt.path(nd['recv']) + path[1:], c, m))
        for j, p in enumerate(t.params):
            if p['d'] == root[1] and j < len(nd.get('c', [])):
                return self.normg((pt.path(nd['c'][j]) + path[1:], c, m))
        return ((('?',),), c, m)

    def normg(self, lk):
        path, c, m = lk
        if path[0] == 'this' or path[0] == 'static' or (isinstance(path[0], tuple) and path[0][0] in ('p', 'l')):
            return (path if len(path) <= 3 else (('?',),), c, m)
        return ((('?',),), c, m)

    def run(self, allowed_pairs=()):
        P, LF = self.P, self.LF
        acq, waits, cbs = self.summaries()
        self.acq = acq
        edges = {}
        self.edges = edges
        for f in P.fns.values():
            seen = set()

            def edge(h, l, ex, trail, node):
                hp, hc, hm = h.lock
                lp, lc, lm = l
                if (hc, hm) == (lc, lm):
                    if hp == lp and hp[0] != ('?',) and not (isinstance(hp[0], tuple) and hp[0][0] == '?'):
                        self.violations.append(('reacquire', f, node, h, l, trail))
                    else:
                        edges.setdefault(((hc, hm), (lc, lm), 'other instance'), (f, node, trail))
                else:
                    edges.setdefault(((hc, hm), (lc, lm), ''), (f, node, trail))

            def visit(e, st):
                if not st:
                    return
                key = e if isinstance(e, int) else ('d', e.get('dtor'), e.get('l'))
                for t in self.dtor_at.get((f.u, key), ()):
                    n = e if isinstance(e, int) else e
                    if isinstance(e, dict) and any(h.var == e.get('dtor') for h in st):
                        continue
                    for (k, ex), tr in acq[t.u].items():
                        k2 = k if k[0][0] == 'static' else ((('?',),), k[1], k[2])
                        for h in st:
                            edge(h, k2, ex, tr, n)
                    if waits[t.u] and ('w', key) not in seen:
                        seen.add(('w', key))
                        self.violations.append(('wait', f, n, st, waits[t.u][0], ((f, n),) + waits[t.u][1]))
                    if cbs[t.u] and ('c', key) not in seen:
                        seen.add(('c', key))
                        self.violations.append(('callback', f, n, st, cbs[t.u][0], ((f, n),) + cbs[t.u][1]))
                if not isinstance(e, int):
                    return
                nd = f.nodes[e]
                if nd['k'] == 'decl':
                    for v in nd['vars']:
                        for lk, ex in LF.guard_info(f, v):
                            for h in st:
                                edge(h, self.normg(lk), ex, (), e)
                if nd['k'] in ('call', 'ctor') and 'u' in nd:
                    q = strip_tpl(nd.get('q', ''))
                    self.stats['calls under a lock'] += 1
                    if q in WAITS and q not in CV and ('w', e) not in seen:
                        seen.add(('w', e))
                        self.violations.append(('wait', f, e, sorted(map(repr, st)), q, ()))
                    if self.is_listener_call(nd) and ('c', e) not in seen:
                        seen.add(('c', e))
                        self.violations.append(('callback', f, e, st, q, ()))
                    for t in P.targets(nd):
                        for (k, ex), tr in acq[t.u].items():
                            k2 = self.map(f, e, nd, t, k)
                            for h in st:
                                edge(h, k2, ex, tr, e)
                        if waits[t.u] and ('w', e) not in seen:
                            seen.add(('w', e))
                            self.violations.append(('wait', f, e, st, waits[t.u][0], waits[t.u][1]))
                        if cbs[t.u] and ('c', e) not in seen:
                            seen.add(('c', e))
                            self.violations.append(('callback', f, e, st, cbs[t.u][0], cbs[t.u][1]))
            LF.scan(f, visit)
        # manual lock()/unlock edges
            for node, lk, ex, st in LF.acquisitions(f):
                if f.nodes[node]['k'] == 'call':
                    for h in st:
                        edge(h, self.normg(lk), ex, (), node)
        # cycles
        g = defaultdict(set)
        for (a, b, kind) in edges:
            if kind == '' :
                g[a].add(b)
        self.graph = g
        # strongly connected components
        idx, low, stck, on, comps, cnt = {}, {}, [], set(), [], [0]

        def strong(v):
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            stck.append(v)
            on.add(v)
            for w in g[v]:
                if w not in idx:
                    strong(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = stck.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                comps.append(comp)
        for v in list(g):
            if v not in idx:
                strong(v)
        for comp in comps:
            if len(comp) > 1:
                es = [(a, b) for (a, b, k) in edges if k == '' and a in comp and b in comp]
                self.violations.append(('cycle', None, None, comp, es, None))
        for (a, b, kind), w in edges.items():
            if kind and not (a == b and self.downward(((w[0], w[1]),) + tuple(w[2]))):
                self.violations.append(('sameclass', w[0], w[1], a, b, w[2]))
        return self.violations


def trail_text(tr):
    return ' -> '.join(f'{f.short}@{f.loc(n)}' for f, n in tr)


def describe(D, v):
    kind, f, node, h, l, tr = v
    nm = lambda k: strip_tpl(k[0]).split('::')[-1] + '::' + k[1]
    if kind == 'reacquire':
        return f'{f.short} at {f.loc(node)} re-acquires {lname(h.lock)} of the same object while holding it' + (f' via {trail_text(tr)}' if tr else '')
    if kind == 'wait':
        return f'{f.short} at {f.loc(node)} waits in {l} while holding {h}' + (f' via {trail_text(tr)}' if tr else '')
    if kind == 'callback':
        return f'{f.short} at {f.loc(node)} calls listener {l} while holding {h}' + (f' via {trail_text(tr)}' if tr else '')
    if kind == 'cycle':
        s = []
        for a, b in l:
            w = D.edges[(a, b, '')]
            s.append(f'{nm(a)} -> {nm(b)} in {w[0].short}@{w[0].loc(w[1])}' + (f' via {trail_text(w[2])}' if w[2] else ''))
        return 'lock order cycle: ' + '; '.join(s)
    if kind == 'sameclass':
        return f'{f.short} at {f.loc(node)} acquires {nm(l)} of another object while holding {nm(h)}' + (f' via {trail_text(tr)}' if tr else '')


if __name__ == '__main__':
    P = Prog()
    D = Deadlock(P)
    vs = D.run()
    print(dict(D.stats))
    for e, w in D.edges.items():
        print('edge', lname((0,)+e[0]), '->', lname((0,)+e[1]), e[2], w[0].short, w[0].loc(w[1]))
    for v in vs:
        print(describe(D, v))
