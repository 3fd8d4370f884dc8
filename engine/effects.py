"""Which objects a function can modify: summaries over all functions, with
roots 'this', ('param', k) and ('global', name).  Objects reached through a
member, a reference, a pointer or a smart pointer belong to the root of the
access path; copies of values belong to nobody."""
from prog import strip_tpl
from locks import is_mutex_type, ITER
from access import classify

LOCKISH = ('lock', 'unlock', 'try_lock', 'lock_shared', 'unlock_shared', 'wait', 'notify_one', 'notify_all')


def aliasing(t):
    """Values of type t give access to an object that others can see."""
    t = t.strip()
    return t.endswith('&') or t.endswith('*') or t.endswith('* const') or 'shared_ptr<' in t or 'unique_ptr<' in t or 'weak_ptr<' in t \
        or bool(ITER.search(t)) or t.endswith('csptr') or t.endswith(']') or 'proxy' in t or 'matrix_column' in t or 'matrix_row' in t


class Effects:
    def __init__(self, P):
        self.P = P
        self.sum = {f.u: {} for f in P.fns.values()}     # u -> {root: witness}
        self._roots = {}
        self._ret = {}
        self.solve()

    # ---- what an expression denotes

    def roots(self, fn, i, depth=0):
        if i is None or i < 0 or depth > 40:
            return frozenset()
        key = (fn.u, i)
        if key in self._roots:
            return self._roots[key]
        self._roots[key] = frozenset()
        r = frozenset(self._r(fn, i, depth))
        self._roots[key] = r
        return r

    def _r(self, fn, i, depth):
        nd = fn.nodes[i]
        k = nd['k']
        R = lambda x: self.roots(fn, x, depth + 1)
        if k == 'this':
            return {'this'}
        if k == 'ref':
            vk = nd['vk']
            if vk in ('smem', 'slocal', 'global'):
                q = nd.get('q', nd['n'])
                return {('global', q)} if q.startswith('usml') or vk != 'global' else set()
            if vk == 'param':
                for j, p in enumerate(fn.params):
                    if p['d'] == nd['d']:
                        return {('param', j)} if aliasing(p['t']) else set()
                return set()
            if vk == 'local':
                v = fn.locals.get(nd['d'])
                if v is None:
                    return set()
                out = set()
                if v.get('init', -1) >= 0 and (aliasing(v['t']) or v['t'].startswith('auto')):
                    out |= R(v['init'])
                if aliasing(v['t']) and not v['t'].endswith('&'):
                    for a in self.assigns(fn).get(nd['d'], ()):
                        out |= R(a)
                if v.get('init', -1) < 0 or 'param' in v:
                    for s in self.ranges(fn).get(nd['d'], ()):
                        if aliasing(v['t']) or v['t'].startswith('auto'):
                            out |= R(s)
                return out
            return set()
        if k == 'mem':
            return R(nd['c'][0])
        if k == 'sub':
            return R(nd['c'][0])
        if k == 'un':
            return R(nd['c'][0]) if nd['op'] in ('*', '&', '++', '--') else set()
        if k in ('cast',):
            return R(nd['c'][0])
        if k == 'init':
            return set().union(*[R(c) for c in nd['c']]) if nd.get('c') else set()
        if k == 'cond':
            return R(nd['c'][1]) | R(nd['c'][2])
        if k == 'bin':
            if nd.get('asg') or nd['op'] == ',':
                return R(nd['c'][0 if nd.get('asg') else 1])
            return R(nd['c'][0]) | R(nd['c'][1]) if nd.get('t', '').endswith('*') else set()
        if k == 'ctor':
            # a copy of a pointer or view denotes the same object
            return set().union(*[R(c) for c in nd.get('c', [])]) if nd.get('c') and aliasing(nd.get('q', '') + nd.get('t', '')) else set()
        if k == 'call':
            out = set()
            if strip_tpl(nd.get('q', '')).split('::')[-1] in ('make_shared', 'make_unique'):
                return set()              # a new object
            t = nd.get('rt', nd.get('t', ''))
            if not aliasing(t) and not aliasing(nd.get('t', '')):
                return set()
            ts = self.P.targets(nd)
            if ts:
                for g in ts:
                    for r in self.returned(g):
                        out |= self.map(fn, nd, r)
                return out
            if nd.get('recv', -1) >= 0:
                out |= R(nd['recv'])
            else:
                for a in nd.get('c', []):
                    out |= R(a)
            return out
        return set()

    def assigns(self, fn):
        m = fn.__dict__.setdefault('_asg', None)
        if m is None:
            m = {}
            for nd in fn.nodes:
                if nd['k'] == 'bin' and nd.get('asg') and nd['op'] == '=':
                    l, r = nd['c']
                elif nd['k'] == 'call' and nd.get('op') == '=' and nd.get('recv', -1) >= 0 and nd['c']:
                    l, r = nd['recv'], nd['c'][0]
                else:
                    continue
                ln = fn.nodes[l]
                if ln['k'] == 'ref' and 'd' in ln:
                    m.setdefault(ln['d'], []).append(r)
            fn._asg = m
        return m

    def ranges(self, fn):
        m = fn.__dict__.setdefault('_rng', None)
        if m is None:
            from cfgutil import stmts
            m = {}
            for s in stmts(fn.body):
                if s.get('s') == 'rangefor' and 'var' in s:
                    m.setdefault(s['var'], []).append(s['range'])
            fn._rng = m
        return m

    def returned(self, g):
        if g.u in self._ret:
            return self._ret[g.u]
        self._ret[g.u] = frozenset()
        out = set()
        if aliasing(g.r.get('rt', '')):
            for nd in g.nodes:
                if nd['k'] == 'ret' and nd.get('c'):
                    out |= self.roots(g, nd['c'][0])
        self._ret[g.u] = frozenset(out)
        return self._ret[g.u]

    def map(self, fn, nd, r):
        """Root r of a callee as roots of the caller."""
        if r == 'this':
            return self.roots(fn, nd['recv']) if nd.get('recv', -1) >= 0 else {'this'} if nd.get('ithis') else set()
        if r[0] == 'param':
            c = nd.get('c', [])
            return self.roots(fn, c[r[1]]) if r[1] < len(c) else set()
        return {r}

    # ---- effects

    def solve(self):
        for f in self.P.fns.values():
            for i, roots in self.direct(f):
                for r in roots:
                    self.sum[f.u].setdefault(r, (i, None))
        callers = self.P.callers
        work = [u for u in self.sum if self.sum[u]]
        while work:
            u = work.pop()
            g = self.P.fns[u]
            for f, i in callers.get(u, ()):
                nd = f.nodes[i]
                if nd['k'] == 'ctor' and nd.get('k') != 'call':
                    rs = [r for r in self.sum[u] if r != 'this']
                else:
                    rs = list(self.sum[u])
                for r in rs:
                    for x in self.map(f, nd, r):
                        if x not in self.sum[f.u]:
                            self.sum[f.u][x] = (i, (u, r))
                            work.append(f.u)

    def direct(self, fn):
        for i, nd in enumerate(fn.nodes):
            k = nd['k']
            if k == 'bin' and nd.get('asg'):
                yield i, self.lroots(fn, nd['c'][0])
            elif k == 'un' and nd['op'] in ('++', '--'):
                yield i, self.lroots(fn, nd['c'][0])
            elif k == 'del':
                yield i, self.roots(fn, nd['c'][0])
            elif k == 'call':
                if self.P.targets(nd):
                    continue
                nm = strip_tpl(nd.get('q', '')).split('::')[-1]
                r = nd.get('recv', -1)
                if r >= 0 and not nd.get('cst') and not nd.get('stat'):
                    rt = fn.nodes[r].get('t', '')
                    if is_mutex_type(rt) or 'condition_variable' in rt or '_lock<' in rt or 'lock_guard<' in rt or nm in LOCKISH:
                        continue
                    if nd.get('op') in ('()', '[]', '*', '->') or nm in ('begin', 'end', 'find', 'rbegin', 'rend', 'front', 'back', 'at', 'data', 'get', 'lower_bound',
                                                                           'upper_bound', 'equal_range', 'find1', 'find2', 'begin1', 'begin2', 'end1', 'end2', 'operator()'):
                        if not (nd.get('op') == '[]' and 'map<' in rt):
                            continue          # element access: judged at its use
                    yield i, self.lroots(fn, r)
                pt = nd.get('pt', [])
                for j, a in enumerate(nd.get('c', [])):
                    t = pt[j] if j < len(pt) else ''
                    if nm in ('move', 'forward', 'get', 'ref', 'addressof', 'begin', 'end', 'make_pair', 'tie', 'column', 'row', 'project', 'subrange'):
                        continue
                    if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&') and 'ostream' not in t:
                        if is_mutex_type(t):
                            continue
                        yield i, self.lroots(fn, a)
                    elif t.endswith('*') and not t.startswith('const ') and 'char' not in t:
                        yield i, self.roots(fn, a)
            elif k == 'ctor':
                if nd.get('u') in self.P.fns:
                    continue
                if aliasing(nd.get('q', '') + nd.get('t', '')) or 'lock' in nd.get('q', ''):
                    continue
                pt = nd.get('pt', [])
                for j, a in enumerate(nd.get('c', [])):
                    t = pt[j] if j < len(pt) else ''
                    if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&') and not is_mutex_type(t):
                        yield i, self.lroots(fn, a)

    def lroots(self, fn, i):
        """Objects changed by assigning to expression i: assigning to a
        pointer variable itself changes only the variable."""
        nd = fn.nodes[i]
        while nd['k'] == 'cast':
            i = nd['c'][0]
            nd = fn.nodes[i]
        if nd['k'] == 'ref' and nd['vk'] in ('local', 'param'):
            v = fn.locals.get(nd['d'])
            t = v['t'] if v else ''
            if not t.endswith('&'):
                return set()
            if t.startswith('const ') :
                return set()
        return self.roots(fn, i)

    def trace(self, u, r, depth=0):
        f = self.P.fns[u]
        i, nxt = self.sum[u][r]
        s = f'{f.short} ({f.loc(i)})'
        if nxt and depth < 8:
            return s + ' -> ' + self.trace(*nxt, depth + 1)
        return s + ': ' + f.text(i)[:70]
