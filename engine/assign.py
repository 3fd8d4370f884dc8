"""Definite assignment: which members of an object have certainly been given
a value at each point of a function.  The object is `this` of a constructor or
a record held by a local variable."""
from collections import defaultdict
from cfgutil import name

READ, WRITE, RW, ELEM, SETTER, NONE = 'read', 'write', 'rw', 'elem', 'setter', 'none'
NEUTRAL = {'resize', 'reserve', 'clear', 'size', 'empty', 'size1', 'size2'}


def context(fn, m, depth=0):
    """(kind, node at which it takes effect, detail) of the member or variable
    expression m."""
    ps = fn.parents.get(m, [])
    for p in ps:
        nd = fn.nodes[p]
        k = nd['k']
        c = nd.get('c', [])
        if k == 'memfn':
            continue
        if k == 'bin' and nd.get('asg') and c[0] == m:
            return (WRITE, p, c[1]) if nd['op'] == '=' else (RW, p, c[1])
        if k == 'un':
            if nd['op'] == '&':
                return (WRITE, p, None)
            if nd['op'] in ('++', '--'):
                return (RW, p, None)
            if nd['op'] == '*':
                x = context(fn, p, depth + 1)
                return (ELEM, x[1], x[2]) if x[0] in (WRITE, RW, ELEM) else x
        if k == 'sub' and c[0] == m:
            x = context(fn, p, depth + 1)
            return (ELEM, x[1], x[2]) if x[0] in (WRITE, RW, ELEM) else (READ, m, None)
        if k == 'cast':
            return context(fn, p, depth + 1)
        if k == 'mem' and c and c[0] == m:
            x = context(fn, p, depth + 1)
            return (ELEM, x[1], x[2]) if x[0] in (WRITE, RW, ELEM) else x
        if k == 'call':
            if nd.get('recv', -1) == m:
                if nd.get('op') == '=':
                    return (WRITE, p, c[0] if c else None)
                if nd.get('op') in ('+=', '-=', '*=', '/='):
                    return (RW, p, c[0] if c else None)
                if nd.get('op') in ('[]', '()'):
                    x = context(fn, p, depth + 1)
                    return (ELEM, x[1], x[2]) if x[0] in (WRITE, RW, ELEM) else (READ, m, None)
                if nd.get('op') == '->' or nd.get('op') == '*':
                    return (READ, m, None)
                if name(nd) in NEUTRAL:
                    return (NONE, p, None)
                if name(nd) in ('store', 'reset', 'assign', 'swap'):
                    return (WRITE, p, c[0] if c else None)
                if not nd.get('cst') and not nd.get('op'):
                    return (SETTER, p, name(nd))
                return (READ, m, None)
            if m in c:
                j = c.index(m)
                pt = nd.get('pt', [])
                t = pt[j] if j < len(pt) else ''
                if nd.get('op') in ('=', '+=', '-=', '*=', '/=', '++', '--') and j == 0 and nd.get('recv', -1) < 0:
                    return (WRITE, p, None) if nd['op'] == '=' else (RW, p, None)
                if t.endswith('&') and not t.startswith('const ') or t.endswith('*') and not t.startswith('const ') and fn.nodes[m].get('t', '').endswith(']'):
                    return (WRITE, p, None)
                return (READ, m, None)
        return (READ, m, None)
    return (NONE, m, None)


class Definite:
    """isroot(fn, i): node i denotes the object (or points to it).
    follow(fn, i): functions run on the same object at call node i."""

    def __init__(self, P, fields, isroot, follow=lambda fn, i: (), scalars=None):
        self.P, self.fields, self.isroot, self.follow = P, fields, isroot, follow
        self.scalars = set(fields) if scalars is None else scalars
        self.early = {}              # (fn.u, node) -> field read before assignment
        self.sums = {}
        self.active = set()
        self.points = {}             # (fn.u, node) -> state at interesting nodes
        self.watch = lambda fn, i: False
        self.inits = lambda fn, e: None

    def member(self, fn, i):
        nd = fn.nodes[i]
        if nd['k'] == 'mem' and nd['n'] in self.fields and nd.get('c'):
            b = nd['c'][0]
            while True:
                bn = fn.nodes[b]
                if bn['k'] in ('cast',) or bn['k'] == 'un' and bn['op'] in ('*', '&') or bn['k'] == 'init' and len(bn['c']) == 1:
                    b = bn['c'][0]
                elif bn['k'] == 'call' and bn.get('op') in ('->', '*') and bn.get('recv', -1) >= 0:
                    b = bn['recv']
                elif bn['k'] == 'call' and name(bn) == 'get' and bn.get('recv', -1) >= 0:
                    b = bn['recv']
                else:
                    break
            if self.isroot(fn, b):
                return nd['n']
        return None

    def prepare(self, fn):
        eff = defaultdict(list)      # node -> [(kind, field, detail)]
        elems = set()
        for i, nd in enumerate(fn.nodes):
            f = self.member(fn, i)
            if f is None:
                continue
            k, at, d = context(fn, i)
            if k == READ:
                eff[i].append(('r', f, None))
            elif k == RW:
                eff[i].append(('r', f, None))
                eff[at].append(('w', f, d))
            elif k == WRITE:
                eff[at].append(('w', f, d))
            elif k == ELEM:
                elems.add(f)
            elif k == SETTER:
                eff[at].append(('s', f, d))
        return eff, elems

    def run(self, fn, init):
        key = (fn.u, init)
        if key in self.sums:
            return self.sums[key]
        if fn.u in self.active or fn.entry is None:
            return init
        self.active.add(fn.u)
        eff, elems = self.prepare(fn)
        IN = {fn.entry: init | frozenset(elems)}
        work = [fn.entry]
        while work:
            b = work.pop()
            st = IN[b]
            for e in fn.blocks[b]['el']:
                if isinstance(e, dict):
                    w = self.inits(fn, e)
                    if w:
                        st = st | frozenset(w)
                    continue
                for k, f, d in eff.get(e, ()):
                    if k == 'r':
                        if f not in st and f in self.scalars:
                            self.early.setdefault((fn.u, f), (fn, e))
                    elif k == 'w':
                        st = st | {f}
                    elif k == 's':
                        st = st | {('set', f, d)}
                for g in self.follow(fn, e):
                    st = st | self.run(g, st)
                if self.watch(fn, e):
                    o = self.points.get((fn.u, e))
                    self.points[(fn.u, e)] = st if o is None else o & st
            if fn.blocks[b].get('noret'):
                continue
            throws = any(isinstance(e, int) and fn.nodes[e]['k'] == 'throw' for e in fn.blocks[b]['el'])
            for s in fn.blocks[b]['su']:
                if s < 0 or throws and s == fn.exit:
                    continue
                n = st if s not in IN else IN[s] & st
                if s not in IN or n != IN[s]:
                    IN[s] = n
                    work.append(s)
        # the fixpoint narrows states: reads must be judged on the final ones
        self.active.discard(fn.u)
        r = IN.get(fn.exit)
        if r is None:
            r = frozenset(self.fields)    # never returns
        self.sums[key] = r
        return r
