"""Lockset dataflow shared by the data-race and deadlock checks.

Held locks are tracked on each function's CFG through RAII guards (named guard
variables only), manual lock()/unlock() calls and guard destruction; the join
is intersection (must-hold).  Locks are named by (owner path, declaring class,
mutex field)."""
import re
from collections import defaultdict
from prog import strip_tpl

GUARD = re.compile(r'^(const )?std::(unique_lock|shared_lock|lock_guard|scoped_lock)<')
MUTEX = re.compile(r'std::(shared_|recursive_|timed_|shared_timed_|recursive_timed_)?mutex\b')
SMARTQ = ('std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr', 'std::__shared_ptr_access', 'std::weak_ptr')
ITER = re.compile(r'(_iterator<|iterator|_Rb_tree_|_List_|_Node_iterator|__normal_iterator)')


def is_mutex_type(t):
    return bool(MUTEX.search(t)) and 'lock<' not in t and 'lock_guard<' not in t


def simple_return(fn):
    """Node returned by a function whose body is a single return, else -1."""
    b = fn.body
    if not b or b.get('s') != 'block' or len(b['b']) != 1 or b['b'][0].get('s') != 'ret':
        return -1
    c = fn.nodes[b['b'][0]['n']].get('c', [])
    return c[0] if c else -1


class Paths:
    """Canonical access paths of expressions inside one function."""

    def __init__(self, prog, fn):
        self.P = prog
        self.f = fn
        self.memo = {}
        self.assigned = None

    def reassigned(self):
        if self.assigned is None:
            s = set()
            f = self.f
            for i, nd in enumerate(f.nodes):
                if nd['k'] == 'bin' and nd.get('asg'):
                    l = f.nodes[nd['c'][0]]
                    if l['k'] == 'ref' and 'd' in l:
                        s.add(l['d'])
                elif nd['k'] == 'call' and nd.get('op') == '=' and nd.get('recv', -1) >= 0:
                    l = f.nodes[nd['recv']]
                    if l['k'] == 'ref' and 'd' in l:
                        s.add(l['d'])
            self.assigned = s
        return self.assigned

    def path(self, i, depth=0):
        """Path tuple: (root, elem, elem...) where root is 'this', 'static',
        ('p', id), ('l', id), ('g', name) or ('?', node)."""
        if i is None or i < 0:
            return (('?', -1),)
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = (('?', i),)
        r = self._path(i, depth)
        self.memo[i] = r
        return r

    def _path(self, i, depth):
        f = self.f
        nd = f.nodes[i]
        k = nd['k']
        if k == 'this':
            return ('this',)
        if k == 'ref':
            vk = nd['vk']
            if vk == 'smem' or vk == 'global' or vk == 'slocal':
                return ('static', nd.get('q', nd['n']))
            if vk in ('param',):
                return (('p', nd['d']),)
            if vk == 'local':
                v = f.locals.get(nd['d'])
                if v and v['init'] >= 0 and nd['d'] not in self.reassigned():
                    t = v['t']
                    ini = f.nodes[v['init']]
                    if t.endswith('&') or t.endswith('*') or ITER.search(t):
                        p = self.path(v['init'], depth + 1)
                        if p[0] != ('?', v['init']):
                            return p
                return (('l', nd['d']),)
            return (('?', i),)
        if k == 'mem':
            return self.path(nd['c'][0], depth + 1) + (nd['n'],)
        if k == 'un' and nd['op'] in ('*', '&'):
            return self.path(nd['c'][0], depth + 1)
        if k == 'cast':
            return self.path(nd['c'][0], depth + 1)
        if k == 'ctor' and nd.get('cm') and len(nd['c']) == 1 and ('shared_ptr' in nd['q'] or 'iterator' in nd['q'].lower() or '_Rb_tree' in nd['q']):
            return self.path(nd['c'][0], depth + 1)
        if k == 'sub':
            return self.path(nd['c'][0], depth + 1) + ('[]',)
        if k == 'call':
            q = strip_tpl(nd.get('q', ''))
            nm = q.split('::')[-1]
            if nd.get('recv', -1) >= 0:
                if q.startswith(SMARTQ) and (nd.get('op') in ('->', '*') or nm == 'get'):
                    return self.path(nd['recv'], depth + 1)
                if nd.get('op') in ('->', '*', '[]', '()') and (ITER.search(nd.get('cls', '')) or q.startswith('std::') or q.startswith('boost::')):
                    return self.path(nd['recv'], depth + 1) + ('[]',)
                if nm in ('begin', 'end', 'find', 'cbegin', 'cend', 'front', 'back', 'at', 'rbegin', 'rend', 'data') and q.startswith(('std::', 'boost::')):
                    return self.path(nd['recv'], depth + 1)
                ts = self.P.targets(nd)
                if len(ts) >= 1 and not nd['c'] and depth < 6:
                    t = ts[0]
                    r = simple_return(t)
                    if r >= 0:
                        sp = Paths(self.P, t).path(r)
                        if sp[0] == 'this':
                            return self.path(nd['recv'], depth + 1) + sp[1:]
                        if sp[0] == 'static':
                            return sp
                return (('?', i),)
            if nm in ('move', 'forward', 'dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast') and nd['c']:
                return self.path(nd['c'][0], depth + 1)
            ts = self.P.targets(nd)
            if ts and nd.get('stat') and not nd['c']:
                # static accessor such as manager::instance(): one path per function
                return ('static', nd['q'] + '()')
        return (('?', i),)


class Held:
    """A lock currently held: owner path, class+field, exclusive?, guard var."""
    __slots__ = ('lock', 'excl', 'var')

    def __init__(self, lock, excl, var):
        self.lock, self.excl, self.var = lock, excl, var

    def key(self):
        return (self.lock, self.excl, self.var)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"{self.lock}{'W' if self.excl else 'R'}"


class LockFlow:
    def __init__(self, prog):
        self.P = prog
        self.paths = {}
        self.states = {}
        self.acqs = {}

    def pt(self, fn):
        if fn.u not in self.paths:
            self.paths[fn.u] = Paths(self.P, fn)
        return self.paths[fn.u]

    def mutex_of(self, fn, i):
        """(owner path, class, field) of a mutex expression."""
        nd = fn.nodes[i]
        if nd['k'] == 'call' and nd.get('recv', -1) >= 0:
            for t in self.P.targets(nd):
                r = simple_return(t)
                if r >= 0:
                    rn = t.nodes[r]
                    if rn['k'] == 'mem':
                        own = self.pt(t).path(rn['c'][0])
                        if own[0] == 'this':
                            return (self.pt(fn).path(nd['recv']) + own[1:], rn['cls'], rn['n'])
                    if rn['k'] == 'ref' and rn.get('vk') == 'smem':
                        return (('static',), rn['cls'], rn['n'])
        if nd['k'] == 'mem':
            return (self.pt(fn).path(nd['c'][0]), nd['cls'], nd['n'])
        if nd['k'] == 'ref' and nd['vk'] == 'smem':
            return (('static',), nd['cls'], nd['n'])
        if nd['k'] == 'ref' and nd['vk'] in ('global', 'slocal'):
            return (('static',), '', nd['q'])
        if nd['k'] == 'ref' and nd['vk'] in ('local', 'param'):
            v = fn.locals.get(nd['d'])
            if v and v['init'] >= 0 and v['t'].endswith('&'):
                return self.mutex_of(fn, v['init'])
            return (self.pt(fn).path(i), '', nd['n'])
        if nd['k'] in ('un', 'cast') and nd['c']:
            return self.mutex_of(fn, nd['c'][0])
        return ((('?', i),), '', '?')

    def guard_info(self, fn, v):
        """[(lock, exclusive)] acquired by declaring guard variable v."""
        t = v['t']
        m = GUARD.match(t)
        if not m or v['init'] < 0 or t.endswith(('&', '*')):
            return []
        ini = fn.nodes[v['init']]
        if ini['k'] != 'ctor':
            return []
        excl = m.group(2) != 'shared_lock'
        out = []
        args = ini['c']
        for a in args:
            at = fn.nodes[a].get('t', '')
            if 'defer_lock_t' in at or 'try_to_lock_t' in at:
                return []
        for a in args:
            if is_mutex_type(fn.nodes[a].get('t', '')):
                out.append((self.mutex_of(fn, a), excl))
        return out

    def guard_decl_locks(self, fn, var):
        v = fn.locals.get(var)
        if not v:
            return []
        m = GUARD.match(v['t'])
        if not m or v['init'] < 0:
            return []
        ini = fn.nodes[v['init']]
        out = []
        for a in ini.get('c', []):
            if is_mutex_type(fn.nodes[a].get('t', '')):
                out.append((self.mutex_of(fn, a), m.group(2) != 'shared_lock'))
        return out

    def transfer(self, fn, e, st, rec=None):
        """State after element e; calls rec(kind, node, data, state_before)."""
        if isinstance(e, dict):
            if 'dtor' in e:
                st = frozenset(h for h in st if h.var != e['dtor'])
            return st
        nd = fn.nodes[e]
        if nd['k'] == 'decl':
            for v in nd['vars']:
                for lk, ex in self.guard_info(fn, v):
                    if rec:
                        rec('acq', e, (lk, ex), st)
                    st = st | {Held(lk, ex, v['d'])}
        elif nd['k'] == 'call' and nd.get('recv', -1) >= 0:
            nm = nd.get('q', '').split('::')[-1]
            r = fn.nodes[nd['recv']]
            if nm in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'release'):
                rt = r.get('t', '')
                if GUARD.match(rt) and r['k'] == 'ref':
                    if nm in ('unlock', 'release'):
                        st = frozenset(h for h in st if h.var != r['d'])
                    elif nm == 'lock':
                        for lk, ex in self.guard_decl_locks(fn, r['d']):
                            if rec:
                                rec('acq', e, (lk, ex), st)
                            st = st | {Held(lk, ex, r['d'])}
                elif is_mutex_type(rt):
                    lk = self.mutex_of(fn, nd['recv'])
                    if nm in ('lock', 'lock_shared'):
                        if rec:
                            rec('acq', e, (lk, nm == 'lock'), st)
                        st = st | {Held(lk, nm == 'lock', None)}
                    else:
                        st = frozenset(h for h in st if not (h.lock == lk and h.var is None))
        return st

    def flow(self, fn):
        """{block id: state at entry} (must-hold sets); None = unreachable."""
        if fn.u in self.states:
            return self.states[fn.u]
        IN = {b: None for b in fn.blocks}
        if fn.entry is None:
            self.states[fn.u] = IN
            return IN
        IN[fn.entry] = frozenset()
        work = [fn.entry]
        while work:
            b = work.pop()
            st = IN[b]
            for e in fn.blocks[b]['el']:
                st = self.transfer(fn, e, st)
            for s in fn.blocks[b]['su']:
                if s < 0:
                    continue
                new = st if IN[s] is None else (IN[s] & st)
                if new != IN[s]:
                    IN[s] = new
                    work.append(s)
        self.states[fn.u] = IN
        return IN

    def scan(self, fn, visit):
        """visit(element, state_before) for every reachable element; node
        indices are visited once per CFG occurrence."""
        IN = self.flow(fn)
        for b, blk in fn.blocks.items():
            st = IN[b]
            if st is None:
                # catch handlers have no predecessor edges without EH edges
                if blk.get('catch') is None:
                    continue
                st = frozenset()
            for e in blk['el']:
                visit(e, st)
                st = self.transfer(fn, e, st)

    def acquisitions(self, fn):
        if fn.u in self.acqs:
            return self.acqs[fn.u]
        out = []

        def rec(kind, node, data, st):
            out.append((node, data[0], data[1], st))
        IN = self.flow(fn)
        for b, blk in fn.blocks.items():
            st = IN[b]
            if st is None:
                continue
            for e in blk['el']:
                st = self.transfer(fn, e, st, rec)
        self.acqs[fn.u] = out
        return out
