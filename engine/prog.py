"""In-memory model of the extracted program: functions, classes, calls, CFGs."""
import re
from collections import defaultdict
import facts

PUBLIC, PROTECTED, PRIVATE = 0, 1, 2


class Fn:
    def __init__(self, r, prog):
        self.r = r
        self.prog = prog
        self.u = r['u']
        self.q = r['q']
        self.n = r['n']
        self.cls = r.get('cls')
        self.file = r['file']
        self.line = r['l']
        self.kind = r['kind']
        self.nodes = r['nodes']
        self.params = r['params']
        self.const = bool(r.get('cst'))
        self.static = bool(r.get('stat'))
        self.body = r['body']
        self.inits = r['inits']
        g = r.get('cfg')
        self.blocks = {b['id']: b for b in g['b']} if g else {}
        self.entry = g['entry'] if g else None
        self.exit = g['exit'] if g else None
        self._par = None
        self._pred = None
        self._locals = None

    def __repr__(self):
        return f'<{self.q}>'

    @property
    def short(self):
        s = self.q
        return s.replace('usml::', '', 1)

    def loc(self, n=None):
        ln = self.line
        if isinstance(n, int) and 0 <= n < len(self.nodes):
            ln = self.nodes[n]['l']
        elif isinstance(n, dict) and 'l' in n:
            ln = n['l']
        return f'{self.file}:{ln}'

    def node(self, i):
        return self.nodes[i]

    def kids(self, i):
        """Sub-expressions of node i, receiver/callee included."""
        nd = self.nodes[i]
        out = []
        if nd.get('recv', -1) is not None and nd.get('recv', -1) >= 0:
            out.append(nd['recv'])
        if nd.get('fn', -1) >= 0:
            out.append(nd['fn'])
        out += [c for c in nd.get('c', []) if c >= 0]
        return out

    @property
    def parents(self):
        if self._par is None:
            p = defaultdict(list)
            for i in range(len(self.nodes)):
                for c in self.kids(i):
                    p[c].append(i)
            self._par = p
        return self._par

    def walk(self, i):
        """All nodes of the expression tree rooted at i (i included)."""
        st = [i]
        seen = set()
        while st:
            x = st.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(self.kids(x))

    def elements(self):
        """(block id, index, element) for each CFG element in block order."""
        for b in self.blocks.values():
            for k, e in enumerate(b['el']):
                yield b['id'], k, e

    @property
    def preds(self):
        if self._pred is None:
            p = defaultdict(list)
            for b in self.blocks.values():
                for s in b['su']:
                    if s >= 0:
                        p[s].append(b['id'])
            self._pred = p
        return self._pred

    def calls(self):
        for i, nd in enumerate(self.nodes):
            if nd['k'] in ('call', 'ctor') and 'u' in nd:
                yield i, nd

    @property
    def locals(self):
        """decl id -> {n,t,init,decl node}"""
        if self._locals is None:
            d = {}
            for i, nd in enumerate(self.nodes):
                if nd['k'] == 'decl':
                    for v in nd['vars']:
                        w = dict(v)
                        w['node'] = i
                        d[v['d']] = w
            for v in self.params:
                w = dict(v)
                w['param'] = True
                w['init'] = -1
                d[v['d']] = w
            self._locals = d
        return self._locals

    @property
    def handlers(self):
        """element -> blocks of the handlers that an exception raised there
        reaches (innermost try only)."""
        if getattr(self, '_handlers', None) is None:
            out = {}
            tries = {}
            for b in self.blocks.values():
                if b.get('tk') == 'CXXTryStmt':
                    tries.setdefault(b['tl'], []).append(b)

            def nodes_of(s, acc):
                if isinstance(s, dict):
                    for k, v in s.items():
                        if k in ('n', 'c', 'inc') and isinstance(v, int) and v >= 0:
                            acc.update(self.walk(v))
                        elif isinstance(v, (dict, list)):
                            nodes_of(v, acc)
                elif isinstance(s, list):
                    for x in s:
                        nodes_of(x, acc)

            def rec(s):
                if isinstance(s, dict):
                    if s.get('s') == 'try':
                        bs = tries.get(s['l'])
                        if bs:
                            acc = set()
                            nodes_of(s['body'], acc)
                            for x in acc:
                                out[x] = [y for y in bs[0]['su'] if y >= 0]
                        rec(s['body'])
                        for h in s['h']:
                            rec(h)
                        return
                    for v in s.values():
                        if isinstance(v, (dict, list)):
                            rec(v)
                elif isinstance(s, list):
                    for x in s:
                        rec(x)
            rec(self.body)
            self._handlers = out
        return self._handlers

    def text(self, i, depth=0):
        """Readable rendering of an expression for reports."""
        if i is None or i < 0:
            return ''
        if depth > 12:
            return '…'
        nd = self.nodes[i]
        k = nd['k']
        T = lambda x: self.text(x, depth + 1)
        c = nd.get('c', [])
        if k == 'ref':
            return nd['n']
        if k == 'mem':
            b = self.nodes[c[0]]
            if b['k'] == 'this':
                return nd['n']
            return T(c[0]) + ('->' if nd.get('arrow') else '.') + nd['n']
        if k == 'this':
            return 'this'
        if k == 'call':
            nm = nd.get('q', '?').split('::')[-1]
            if 'op' in nd:
                a = ([nd['recv']] if nd.get('recv', -1) >= 0 else []) + c
                if nd['op'] in ('()', '[]'):
                    return T(a[0]) + nd['op'][0] + ', '.join(T(x) for x in a[1:]) + nd['op'][1]
                if nd['op'] == '->':
                    return T(a[0])
                if len(a) == 1:
                    return nd['op'] + T(a[0])
                return T(a[0]) + ' ' + nd['op'] + ' ' + T(a[1])
            r = ''
            if nd.get('recv', -1) >= 0 and not nd.get('ithis'):
                r = T(nd['recv']) + ('->' if nd.get('arrow') else '.')
            return r + nm + '(' + ', '.join(T(x) for x in c) + ')'
        if k == 'ctor':
            if nd.get('cm') or nd.get('el'):
                return ', '.join(T(x) for x in c)
            return nd['q'].split('::')[-1] + '(' + ', '.join(T(x) for x in c) + ')'
        if k == 'bin':
            return T(c[0]) + ' ' + nd['op'] + ' ' + T(c[1])
        if k == 'un':
            return T(c[0]) + nd['op'] if nd.get('post') else nd['op'] + T(c[0])
        if k in ('lit', 'str'):
            return repr(nd['v']) if k == 'str' else str(nd['v'])
        if k == 'null':
            return 'nullptr'
        if k == 'sub':
            return T(c[0]) + '[' + T(c[1]) + ']'
        if k == 'cast':
            return T(c[0])
        if k == 'new':
            return 'new ' + nd['ty'].split('::')[-1] + ('[]' if nd.get('arr') else '')
        if k == 'del':
            return 'delete' + ('[] ' if nd.get('arr') else ' ') + T(c[0])
        if k == 'cond':
            return T(c[0]) + ' ? ' + T(c[1]) + ' : ' + T(c[2])
        if k == 'ret':
            return 'return ' + (T(c[0]) if c else '')
        if k == 'decl':
            return ', '.join(v['n'] + ('=' + T(v['init']) if v['init'] >= 0 else '') for v in nd['vars'])
        if k == 'lambda':
            return '[lambda]'
        return k + '(' + ', '.join(T(x) for x in c) + ')'


class Cls:
    def __init__(self, r):
        self.r = r
        self.name = r['cls']
        self.q = r['q']
        self.file = r['file']
        self.line = r['l']
        self.fields = {f['n']: f for f in r['fields'] if not f.get('static')}
        self.statics = {f['n']: f for f in r['fields'] if f.get('static')}
        self.methods = r['methods']
        self.bases = [b['t'] for b in r['bases']]

    def __repr__(self):
        return f'<class {self.name}>'


class Prog:
    def __init__(self, variant='release'):
        recs, self.key = facts.extract(variant)
        self.variant = variant
        self.fns = {}
        self.classes = {}
        self.enums = {}
        self.vars = {}
        self.meta = None
        for r in recs:
            if r['rec'] == 'fn':
                self.fns[r['u']] = Fn(r, self)
            elif r['rec'] == 'cls':
                self.classes[r['cls']] = Cls(r)
            elif r['rec'] == 'enum':
                self.enums[r['q']] = r
            elif r['rec'] == 'var':
                self.vars[r['q']] = r
            elif r['rec'] == 'meta':
                self.meta = r
        self.overriders = defaultdict(set)    # usr -> usrs that (transitively) override it
        direct = defaultdict(set)
        self.method_info = {}
        for c in self.classes.values():
            for m in c.methods:
                self.method_info[m['u']] = (c, m)
                for o in m['ov']:
                    direct[o].add(m['u'])
        for u in list(direct):
            st = list(direct[u])
            while st:
                x = st.pop()
                if x in self.overriders[u]:
                    continue
                self.overriders[u].add(x)
                st.extend(direct.get(x, ()))
        self.derived = defaultdict(set)
        for c in self.classes.values():
            for b in self.all_bases(c.name):
                self.derived[b].add(c.name)
        self._callers = None
        self._ctors = {}

    def all_bases(self, cls):
        out = []
        if cls not in self.classes and '<' in (cls or ''):
            # explicit instantiation: bases of another instance of the template
            cls = min((c for c in self.classes if '<' in c and c.split('<')[0] == cls.split('<')[0]), default=cls)
        st = list(self.classes[cls].bases) if cls in self.classes else []
        while st:
            b = st.pop(0)
            if b in out:
                continue
            out.append(b)
            if b in self.classes:
                st.extend(self.classes[b].bases)
        return out

    def is_a(self, cls, base):
        return cls == base or base in self.all_bases(cls)

    def field_owner(self, cls, field):
        """Record declaring `field`, searched from cls through its bases."""
        for c in [cls] + self.all_bases(cls):
            if c in self.classes and (field in self.classes[c].fields or field in self.classes[c].statics):
                return c
        return cls

    def targets(self, nd):
        """Possible callees (Fn) of a call/ctor node that have bodies in /repo."""
        u = nd.get('u')
        if u is None:
            return []
        out = []
        if u in self.fns:
            out.append(self.fns[u])
        elif nd['k'] == 'call' and nd.get('q', '').startswith('std::make_') and '<' in nd.get('t', ''):
            return self.made(nd)
        if nd.get('virt'):
            for o in sorted(self.overriders.get(u, ())):
                if o in self.fns:
                    out.append(self.fns[o])
        return out

    def made(self, nd):
        """Constructors that make_shared<T>(...) / make_unique<T>(...) may run."""
        t = nd['t'].split('<', 1)[1].rsplit('>', 1)[0]
        if t not in self._ctors:
            self._ctors[t] = [f for f in self.fns.values() if f.kind == 'ctor' and f.cls == t.replace('const ', '')]
        n = len(nd.get('c', []))
        cs = [f for f in self._ctors[t] if len(f.params) >= n and not (f.r.get('cm') and n == 1)]
        exact = [f for f in cs if len(f.params) == n]
        return exact or cs

    @property
    def callers(self):
        if self._callers is None:
            d = defaultdict(list)
            for f in self.fns.values():
                for i, nd in f.calls():
                    for t in self.targets(nd):
                        d[t.u].append((f, i))
            self._callers = d
        return self._callers

    def by_q(self, q):
        """Functions whose qualified name ends with q (module-insensitive)."""
        return [f for f in self.fns.values() if f.q == q or f.q.endswith('::' + q)]

    def cls_by_name(self, n):
        """Class whose unqualified name (with template args) is n."""
        for c in self.classes.values():
            if c.name == n or c.name.endswith('::' + n) or c.r['n'] == n and '<' not in c.name:
                return c
        return None


def strip_tpl(s):
    """Drops template arguments: a::b<c>::d -> a::b::d"""
    out, d = [], 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)
