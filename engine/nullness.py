"""Nullness dataflow for raw and smart pointers named by access paths.

Facts: path -> 'N' (null) or 'V' (points to an object); a missing path is
unknown.  Copies between a local and a path share refinements until either is
reassigned; calls drop facts about fields that the callee may write."""
from collections import defaultdict
from prog import strip_tpl
from locks import Paths, SMARTQ, ITER

SMART = ('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<')


def bare(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    if t.startswith('const '):
        t = t[6:]
    return t.strip()


def is_smart(t):
    t = bare(t)
    return t.startswith(SMART) and t.endswith('>')


def is_ptr(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    if t.endswith('*const'):
        return True
    return t.endswith('*') or is_smart(t)


def is_iter(t):
    return bool(ITER.search(t)) and not t.rstrip('& ').endswith('*')


def tracked(t):
    return is_ptr(t) or is_iter(t)


class ModSets:
    """Fields each function may write, transitively."""

    def __init__(self, P):
        self.P = P
        self.mod = {u: set() for u in P.fns}
        from access import classify
        for f in P.fns.values():
            s = self.mod[f.u]
            for i, nd in enumerate(f.nodes):
                if nd['k'] == 'mem' and 'cls' in nd and classify(f, i) in ('write', 'rw', 'addr', 'retref'):
                    s.add(nd['n'])
                elif nd['k'] == 'ref' and nd.get('vk') in ('smem', 'global', 'slocal') and classify(f, i) in ('write', 'rw', 'addr', 'retref'):
                    s.add(nd.get('q', nd['n']).split('::')[-1])
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                s = self.mod[f.u]
                n = len(s)
                for i, nd in f.calls():
                    for t in P.targets(nd):
                        s |= self.mod[t.u]
                for i, nd in enumerate(f.nodes):
                    if nd['k'] == 'lambda' and nd['u'] in self.mod:
                        s |= self.mod[nd['u']]
                if len(s) != n:
                    ch = True


class Nullness:
    def __init__(self, P, mods=None):
        self.P = P
        self.mods = mods or ModSets(P)
        self._paths = {}
        self._flow = {}
        self.fn_null = {}          # fn.u -> reason why it may return null
        self.nullable = {}

    # -- paths without alias resolution of pointer locals ----------------
    def path(self, f, i):
        nd = f.nodes[i]
        k = nd['k']
        if k == 'ref':
            if nd['vk'] in ('local', 'param'):
                v = f.locals.get(nd['d'])
                if v and v['init'] >= 0 and v['t'].endswith('&') and nd['vk'] == 'local':
                    p = self.path(f, v['init'])
                    if p is not None:
                        return p
                return (('v', nd['d']),)
            return (('s', nd.get('q', nd['n'])),)
        if k == 'this':
            return ('this',)
        if k == 'mem':
            p = self.path(f, nd['c'][0])
            return None if p is None else p + (nd['n'],)
        if k == 'cast':
            return self.path(f, nd['c'][0])
        if k == 'un' and nd['op'] in ('*', '&'):
            return self.path(f, nd['c'][0])
        if k == 'ctor' and nd.get('cm') and len(nd.get('c', [])) == 1:
            return self.path(f, nd['c'][0])
        if k == 'ctor' and len(nd.get('c', [])) == 1 and is_smart(nd.get('t', '')) and is_ptr(f.nodes[nd['c'][0]].get('t', '')):
            return self.path(f, nd['c'][0])
        if k == 'call':
            q = strip_tpl(nd.get('q', ''))
            nm = q.split('::')[-1]
            if nd.get('recv', -1) >= 0:
                if q.startswith(SMARTQ) and (nd.get('op') in ('->', '*') or nm in ('get',)):
                    return self.path(f, nd['recv'])
                if nd.get('op') in ('->', '*') and ITER.search(nd.get('cls', '')):
                    p = self.path(f, nd['recv'])
                    return None if p is None else p + ('*it',)
                ts = self.P.targets(nd)
                if len(ts) == 1 and not nd['c']:
                    from locks import simple_return
                    r = simple_return(ts[0])
                    if r >= 0 and is_ptr(nd.get('t', '')):
                        own = self.path(f, nd['recv'])
                        sub = self.path(ts[0], r)
                        if own is not None and sub and sub[0] == 'this':
                            return own + sub[1:]
                return None
            if nm in ('move', 'forward', 'addressof') and nd['c']:
                return self.path(f, nd['c'][0])
        return None

    def value(self, f, i, st):
        """'N', 'V', ('src', reason) or None (unknown)."""
        nd = f.nodes[i]
        k = nd['k']
        if k == 'null' or (k == 'lit' and str(nd.get('v')) == '0' and is_ptr(nd.get('t', ''))):
            return 'N'
        if k in ('new', 'this'):
            return 'V'
        if k == 'un' and nd['op'] == '&':
            return 'V'
        if k == 'cast':
            if nd.get('style') == 'CXXDynamicCastExpr':
                return ('src', 'dynamic_cast')
            return self.value(f, nd['c'][0], st)
        if k == 'cond':
            a, b = self.value(f, nd['c'][1], st), self.value(f, nd['c'][2], st)
            if a == b:
                return a
            for v in (a, b):
                if v == 'N' or isinstance(v, tuple):
                    return ('src', 'conditional value')
            return None
        p = self.path(f, i)
        if p is not None and p in st:
            return None if st[p] == '?' else st[p]
        if k == 'mem' and (nd.get('cls'), nd['n']) in self.nullable and f.kind != 'ctor':
            return ('src', f"{nd['n']} is empty until it has been computed or set")
        if k == 'ctor':
            if is_smart(nd.get('t', nd.get('q', '') + '<')):
                c = nd.get('c', [])
                if not c:
                    return 'N'
                return self.value(f, c[0], st)
            if len(nd.get('c', [])) == 1:
                return self.value(f, nd['c'][0], st)
            return None
        if k == 'init':
            if not nd.get('c'):
                return 'N' if is_ptr(nd.get('t', '')) else None
            if len(nd['c']) == 1:
                return self.value(f, nd['c'][0], st)
            return None
        if k == 'call':
            q = strip_tpl(nd.get('q', ''))
            nm = q.split('::')[-1]
            if nm == 'find' and q.startswith('std::') and is_iter(nd.get('t', '')):
                return ('src', 'find() of a key that may be absent')
            if nm in ('make_shared', 'make_unique'):
                return 'V'
            if nm in ('dynamic_pointer_cast',):
                return ('src', 'dynamic_pointer_cast')
            if nm == 'lock' and 'weak_ptr' in q:
                return ('src', 'an expired weak reference')
            if nm in ('static_pointer_cast', 'const_pointer_cast', 'move', 'forward') and nd['c']:
                return self.value(f, nd['c'][0], st)
            if nd.get('recv', -1) >= 0 and q.startswith(SMARTQ) and nm == 'get':
                return self.value(f, nd['recv'], st)
            for t in self.P.targets(nd):
                if t.u in self.fn_null:
                    return ('src', f'{t.short.split("::",1)[-1]}() ({self.fn_null[t.u]})')
        return None

    # -- transfer --------------------------------------------------------
    def kill(self, st, p):
        return {k: v for k, v in st.items() if not (k != 'copies' and k[:len(p)] == p)} | {
            'copies': frozenset((a, b) for a, b in st.get('copies', ()) if a[:len(p)] != p and b[:len(p)] != p)}

    def assign(self, f, st, p, i, node):
        v = self.value(f, i, st)
        src = self.path(f, i)
        # a fresh value for p
        st = self.kill(st, p)
        st[p] = '?' if v is None else v       # '?': some assigned value
        if src is not None and src != p and src[:len(p)] != p:
            st['copies'] = st.get('copies', frozenset()) | {(p, src)}
        return st

    def refine(self, st, p, v):
        st = dict(st)
        todo = [p]
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            st[x] = v
            for a, b in st.get('copies', ()):
                if a == x:
                    todo.append(b)
                if b == x:
                    todo.append(a)
        return st

    def drop_fields(self, st, mod):
        bad = [k for k in st if k != 'copies' and any(isinstance(x, str) and x in mod for x in k[1:]) or k != 'copies' and isinstance(k[0], tuple) and k[0][0] == 's' and k[0][1].split('::')[-1] in mod]
        for k in bad:
            st = self.kill(st, k)
        cp = frozenset((a, b) for a, b in st.get('copies', ()) if not any(isinstance(x, str) and x in mod for x in a[1:] + b[1:]))
        if cp != st.get('copies', frozenset()):
            st = dict(st)
            st['copies'] = cp
        return st

    def transfer(self, f, e, st):
        if isinstance(e, dict):
            if 'dtor' in e:
                p = (('v', e['dtor']),)
                if any(k != 'copies' and k[:1] == p for k in st) or any(a[:1] == p or b[:1] == p for a, b in st.get('copies', ())):
                    st = self.kill(st, p)
            return st
        nd = f.nodes[e]
        k = nd['k']
        if k == 'decl':
            for v in nd['vars']:
                if not tracked(v['t']) or v['t'].endswith('&'):
                    continue
                p = (('v', v['d']),)
                if v['init'] >= 0:
                    st = self.assign(f, dict(st), p, v['init'], e)
                elif is_smart(v['t']):
                    st = dict(self.kill(st, p))
                    st[p] = 'N'
        elif k == 'bin' and nd.get('asg'):
            l = nd['c'][0]
            if tracked(f.nodes[l].get('t', '')):
                p = self.path(f, l)
                if p is not None:
                    st = self.assign(f, dict(st), p, nd['c'][1], e)
        elif k == 'call':
            q = strip_tpl(nd.get('q', ''))
            nm = q.split('::')[-1]
            if nd.get('recv', -1) >= 0 and nd.get('op') == '=' and is_iter(nd.get('cls', '')):
                p = self.path(f, nd['recv'])
                if p is not None:
                    st = self.assign(f, dict(st), p, nd['c'][0], e)
            elif nd.get('recv', -1) >= 0 and nd.get('op') in ('++', '--', '+=', '-=') and is_iter(nd.get('cls', '')):
                p = self.path(f, nd['recv'])
                if p is not None:
                    st = self.kill(st, p)
            elif nd.get('recv', -1) >= 0 and q.startswith(SMARTQ) and nm in ('operator=', 'reset', 'swap', 'release'):
                p = self.path(f, nd['recv'])
                if p is not None:
                    if nm == 'operator=' and nd['c']:
                        st = self.assign(f, dict(st), p, nd['c'][0], e)
                    elif nm == 'reset':
                        if nd['c'] and f.nodes[nd['c'][0]]['k'] != 'null':
                            st = self.assign(f, dict(st), p, nd['c'][0], e)
                        else:
                            st = dict(self.kill(st, p)); st[p] = 'N'
                    elif nm == 'release':
                        st = dict(self.kill(st, p)); st[p] = 'N'
                    elif nm == 'swap' and nd['c']:
                        p2 = self.path(f, nd['c'][0])
                        a, b = st.get(p), st.get(p2) if p2 else None
                        st = dict(self.kill(st, p))
                        if p2:
                            st = dict(self.kill(st, p2))
                            if a is not None:
                                st[p2] = a
                        if b is not None:
                            st[p] = b
            else:
                mod = set()
                for t in self.P.targets(nd):
                    mod |= self.mods.mod[t.u]
                if mod:
                    st = self.drop_fields(st, mod)
                # non-const reference arguments
                pt = nd.get('pt', [])
                for j, a in enumerate(nd.get('c', [])):
                    if j < len(pt) and pt[j].endswith('&') and not pt[j].startswith('const ') and is_ptr(pt[j]):
                        p = self.path(f, a)
                        if p is not None:
                            st = self.kill(st, p)
        return st

    def cond(self, f, c, truth, st):
        """Refines st along the edge where condition c has value truth."""
        nd = f.nodes[c]
        k = nd['k']
        if k == 'un' and nd['op'] == '!':
            return self.cond(f, nd['c'][0], not truth, st)
        if k == 'cast':
            return self.cond(f, nd['c'][0], truth, st)
        if k == 'bin' and nd['op'] in ('==', '!=') or k == 'call' and nd.get('op') in ('==', '!='):
            a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + nd['c']
            if len(a) == 2:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if self.isnull(f, y):
                        p = self.path(f, x)
                        if p is None:
                            return st
                        eq = (nd['op'] == '==') == truth
                        old = st.get(p)
                        if old == 'V' and eq or old == 'N' and not eq:
                            return None     # infeasible
                        return self.refine(st, p, 'N' if eq else 'V')
            return st
        if k == 'call':
            q = strip_tpl(nd.get('q', ''))
            if q.endswith('operator bool') and nd.get('recv', -1) >= 0:
                p = self.path(f, nd['recv'])
                if p is not None:
                    old = st.get(p)
                    if old == 'N' and truth or old == 'V' and not truth:
                        return None
                    return self.refine(st, p, 'V' if truth else 'N')
            return st
        if is_ptr(nd.get('t', '')):
            p = self.path(f, c)
            if p is not None:
                old = st.get(p)
                if old == 'N' and truth or old == 'V' and not truth:
                    return None
                return self.refine(st, p, 'V' if truth else 'N')
        # boolean local holding the outcome of a test
        if k == 'ref' and nd.get('vk') == 'local':
            v = f.locals.get(nd['d'])
            if v and v['init'] >= 0 and v['t'] in ('bool', 'const bool') and not self.rewritten(f, nd['d']):
                return self.cond(f, v['init'], truth, st)
        return st

    def rewritten(self, f, d):
        key = (f.u, d)
        if key not in self._paths:
            r = False
            for nd in f.nodes:
                if nd['k'] == 'bin' and nd.get('asg') and f.nodes[nd['c'][0]]['k'] == 'ref' and f.nodes[nd['c'][0]].get('d') == d:
                    r = True
            self._paths[key] = r
        return self._paths[key]

    def isnull(self, f, i):
        nd = f.nodes[i]
        if nd['k'] == 'null':
            return True
        if nd['k'] == 'call' and nd.get('recv', -1) >= 0 and nd.get('q', '').split('::')[-1] in ('end', 'cend') and is_iter(nd.get('t', '')):
            return True
        if nd['k'] == 'ref' and nd.get('vk') == 'local' and is_iter(nd.get('t', '')):
            v = f.locals.get(nd['d'])
            if v and v['init'] >= 0 and not self.rewritten(f, nd['d']):
                return self.isnull(f, v['init'])
        if nd['k'] == 'lit' and str(nd.get('v')) == '0' and is_ptr(nd.get('t', '')):
            return True
        if nd['k'] in ('cast', 'ctor') and len(nd.get('c', [])) == 1:
            return self.isnull(f, nd['c'][0])
        return False

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in a:
            if k == 'copies':
                continue
            if k in b and a[k] == b[k]:
                out[k] = a[k]
            else:
                va, vb = a.get(k), b.get(k)
                for v in (va, vb):
                    if isinstance(v, tuple):
                        out[k] = v
                        break
                else:
                    if {va, vb} == {'V', '?'}:
                        out[k] = '?'
                    elif 'N' in (va, vb):
                        out[k] = ('src', 'null on some path')
        for k in b:
            if k != 'copies' and k not in a:
                v = b[k]
                if isinstance(v, tuple):
                    out[k] = v
                elif v == 'N':
                    out[k] = ('src', 'null on some path')
        out['copies'] = a.get('copies', frozenset()) & b.get('copies', frozenset())
        return out

    def flow(self, f, init=None):
        key = f.u
        if init is None and key in self._flow:
            return self._flow[key]
        IN = {b: None for b in f.blocks}
        if f.entry is not None:
            IN[f.entry] = dict(init or {'copies': frozenset()})
            IN[f.entry].setdefault('copies', frozenset())
            if f.kind == 'ctor':
                pass
            work = [f.entry]
            for b, blk in f.blocks.items():
                if 'catch' in blk:
                    IN[b] = {'copies': frozenset()}
                    work.append(b)
            n = 0
            while work and n < 20000:
                n += 1
                b = work.pop(0)
                st = IN[b]
                if st is None:
                    continue
                blk = f.blocks[b]
                for e in blk['el']:
                    st = self.transfer(f, e, st)
                if blk.get('noret'):
                    continue
                su = blk['su']
                for k, s in enumerate(su):
                    if s < 0:
                        continue
                    out = st
                    c = blk.get('lc', blk.get('tc'))
                    if len(su) == 2 and isinstance(c, int) and c >= 0 and blk.get('tk') not in ('SwitchStmt', 'CXXForRangeStmt'):
                        out = self.cond(f, c, k == 0, st)
                        if out is None:
                            continue
                    new = self.join(IN[s], out)
                    if new != IN[s]:
                        IN[s] = new
                        work.append(s)
        if init is None:
            self._flow[key] = IN
        return IN

    def scan(self, f, visit):
        IN = self.flow(f)
        for b, blk in f.blocks.items():
            st = IN[b]
            if st is None:
                continue
            for e in blk['el']:
                visit(e, st)
                st = self.transfer(f, e, st)
