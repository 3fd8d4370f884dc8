"""Symbolic values of expressions (value numbering over the control flow
graph).  Every expression node gets a term; locals and members are substituted
flow-sensitively, loops introduce one unknown per changed variable.

Terms: ('num',v) ('str',s) ('sym',tag) ('this',) ('loc',d) ('glob',q)
('mem',base,name[,version]) ('idx',base,(i..)) ('add',term,k) ('op',o,args..)
('call',name,args..) ('new',name,args..) ('vec',items..) ('phi',block,key)
('out',node,arg) ('&',location)"""
from prog import strip_tpl
from cfgutil import name, LOOPS

SAME = {'begin', 'end', 'data', 'get', 'front', 'back', 'cbegin', 'size', 'str', 'c_str', 'at', 'lock', 'empty'}
FORWARD = {'get', 'lock', 'move', 'forward', 'data', 'begin', 'cbegin', 'c_str', 'ref', 'cref', 'addressof'}
INTS = ('int', 'long', 'short', 'char', 'unsigned', 'size_t', 'bool', 'size_type')
CTOR_FORWARD = ('std::basic_string', 'std::shared_ptr', 'std::unique_ptr', 'std::function')


def root(t):
    while t[0] in ('mem', 'idx', '&'):
        t = t[1]
    return t


def contains(t, x):
    if t == x:
        return True
    return any(contains(c, x) for c in t if isinstance(c, tuple) and c)


def offset(t):
    return (t[1], t[2]) if t[0] == 'add' else (t, 0)


def add(t, k):
    if t[0] == 'num':
        return ('num', t[1] + k)
    b, o = offset(t)
    return b if o + k == 0 else ('add', b, o + k)


def walk(t):
    yield t
    for c in t:
        if isinstance(c, tuple) and c:
            yield from walk(c)


class Sym:
    """inline(callee) -> evaluate this library function in place;
    hook(sym, node, call node) is called at each call before its effects."""
    frozen = frozenset()              # locations that only their own assignment changes
    ident = ()                        # classes whose objects are told apart by where they are made

    deepest = 3

    def __init__(self, P, fn, bind=None, state=None, inline=None, mods=None, hook=None, onstore=None, depth=0, tag=(), frozen=None, ident=()):
        self.frozen, self.ident = frozenset(frozen or ()), ident
        self.P, self.fn, self.inline, self.mods, self.depth, self.tag, self.hook = P, fn, inline, mods, depth, tag, hook
        self.this, self.up = ('this',), None
        self.final = False
        self.onstore = onstore
        self.bind = bind or {}
        self.alias = {}
        self.val = {}                 # node -> term
        self.lval = {}                # node -> location term
        self.ins, self.outs = {}, {}
        self.phi = {}                 # phi term -> {pred block: term}
        self.nested = {}              # call node -> Sym
        self.kills = {}               # block -> written keys
        self.start = dict(state or {})
        if fn.entry is not None:
            self.loops()
            self.run(collect=True)
            self.run(collect=False)

    def copy_to(self, sub):
        pass

    # ---------------------------------------------------------------- loops
    def loops(self):
        f = self.fn
        order, seen, onstack, back = [], set(), set(), []

        st = [(f.entry, iter([s for s in f.blocks[f.entry]['su'] if s >= 0]))]
        seen.add(f.entry)
        onstack.add(f.entry)
        while st:
            b, it = st[-1]
            s = next(it, None)
            if s is None:
                order.append(b)
                onstack.discard(b)
                st.pop()
            elif s in onstack:
                back.append((b, s))
            elif s not in seen:
                seen.add(s)
                onstack.add(s)
                st.append((s, iter([x for x in f.blocks[s]['su'] if x >= 0])))
        self.rpo = order[::-1]
        self.back = set(back)
        self.heads = {}
        for b, h in back:
            body = self.heads.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x not in body:
                    body.add(x)
                    w += [p for p in f.preds[x] if p in seen]
        self.reach = seen

    def enclosing(self, b):
        """Loop heads around block b, innermost first."""
        return sorted((h for h, body in self.heads.items() if b in body), key=lambda h: len(self.heads[h]))

    def block_of(self, i):
        if not hasattr(self, '_blk'):
            self._blk = {}
            for b, x in self.fn.blocks.items():
                for e in x['el']:
                    if isinstance(e, int):
                        self._blk.setdefault(e, b)
        return self._blk.get(i)

    # ----------------------------------------------------------------- pass
    prune = False

    def const(self, t):
        """Whether condition t is known: pointers to objects are not null."""
        if t[0] == '&':
            return True
        if t[0] == 'num' and isinstance(t[1], (int, float, bool)):
            return bool(t[1])
        if t[0] == 'op' and len(t) == 3 and t[1] == '!':
            v = self.const(t[2])
            return None if v is None else not v
        if t[0] == 'op' and len(t) == 4 and t[1] in ('==', '!='):
            a, b = t[2:]
            if a[0] == 'num':
                a, b = b, a
            if b == ('num', 0) and a[0] == '&' or a[0] == 'num' and b[0] == 'num':
                return (a == b) == (t[1] == '==')
        return None

    def initialize(self, field, i):
        self.store(('mem', self.this, field), self.v(i))

    def dead_edges(self, b):
        """Edges from block b that are never taken."""
        blk = self.fn.blocks[b]
        su, c = blk['su'], blk.get('lc', blk.get('tc'))
        if any(isinstance(e, int) and self.fn.nodes[e]['k'] == 'throw' for e in blk['el']):
            return {(b, x) for x in su}
        if blk.get('tk') == 'SwitchStmt':
            c = blk.get('tc', -1)
            v = (self.val.get(c) or self.v(c)) if c is not None and c >= 0 else ('sym',)
            if v[0] != 'num':
                return set()
            B = self.fn.blocks
            live = [x for x in su if B[x].get('casev') == int(v[1]) and 'case' in B[x]] or [x for x in su if B[x].get('default')] or [x for x in su if 'case' not in B[x]]
            return {(b, x) for x in su if x not in live}
        if len(su) != 2 or c is None or c < 0 or su[0] == su[1]:
            return set()
        v = self.const(self.val.get(c) or self.v(c))
        return set() if v is None else {(b, su[1 if v else 0])}

    def run(self, collect):
        f = self.fn
        dead = set()
        self.final = not collect and getattr(self, 'outerfinal', True)
        self.val, self.lval, self.ins, self.outs, self.phi, self.nested = {}, {}, {}, {}, {}, {}
        oldkills = self.kills
        self.kills = {}
        for b in self.rpo:
            preds = [p for p in f.preds[b] if p in self.outs and (p, b) not in self.back and (p, b) not in dead]
            if self.prune and not preds and b != f.entry:
                continue
            if b == f.entry:
                st = dict(self.start)
            elif not preds:
                st = {}
            else:
                st = self.join(b, preds)
            if b in self.heads and not collect:
                self.widen(b, st, preds, oldkills)
            self.ins[b] = dict(st)
            self.kills[b] = set()
            self.st, self.blk = st, b
            for e in f.blocks[b]['el']:
                if isinstance(e, int):
                    self.visit(e)
                elif isinstance(e, dict) and e.get('n', -1) is not None and isinstance(e.get('n'), int) and e['n'] >= 0:
                    self.visit(e['n'])
                    if self.prune and e.get('initf'):
                        self.initialize(e['initf'], e['n'])
            self.outs[b] = self.st
            if self.prune:
                dead |= self.dead_edges(b)
        if not collect:
            for (p, h) in self.back:
                if p not in self.outs:
                    continue
                for t in list(self.phi):
                    if t[1] == self.tag + (h,):
                        self.phi[t][p] = self.load(t[2], self.outs[p])

    def widen(self, b, st, preds, oldkills):
        """Unknowns for what the loop with head b changes."""
        keys, fields = set(), set()
        for x in self.heads[b]:
            for k in oldkills.get(x, ()):
                r = root(k)
                if r[0] == 'loc':
                    keys.add(r)
                names = [t[2] for t in walk(k) if t[0] == 'mem']
                if r[0] != 'loc' and names:
                    fields.add(names[0])
        for k in list(st):
            if k[0] != 'ver' and (root(k) in keys or fields & {t[2] for t in walk(k) if t[0] == 'mem'}):
                v = self.phi_new(b, k, preds, st[k])
                st[k] = v
        for k in keys:
            if k not in st:
                st[k] = self.phi_new(b, k, preds, None)
        for n in fields:
            st[('ver', n)] = ('phi', self.tag + (b,), ('ver', n))

    def phi_new(self, b, key, preds, v):
        t = ('phi', self.tag + (b,), key)
        self.phi.setdefault(t, {})
        for p in preds:
            self.phi[t][p] = self.load(key, self.outs[p])
        return t

    def join(self, b, preds):
        if len(preds) == 1:
            return dict(self.outs[preds[0]])
        st = {}
        keys = set()
        for p in preds:
            keys |= set(self.outs[p])
        for k in keys:
            if k[0] == 'ver':
                vs = {self.outs[p].get(k) for p in preds}
                st[k] = vs.pop() if len(vs) == 1 else ('phi', self.tag + (b,), k)
                continue
            vs = {p: self.load(k, self.outs[p]) for p in preds}
            if len(set(vs.values())) == 1:
                st[k] = next(iter(vs.values()))
            else:
                t = ('phi', self.tag + (b,), k)
                self.phi.setdefault(t, {}).update(vs)
                st[k] = t
        return st

    # --------------------------------------------------------------- memory
    def load(self, l, st):
        if l in st:
            return st[l]
        if l[0] == 'mem':
            b = l[1]
            bv = self.load(b, st) if b[0] in ('loc', 'idx', 'mem') else b
            if bv != b and bv[0] == '&':
                return self.load(('mem', bv[1], l[2]), st)
            v = st.get(('ver', l[2]))
            t = ('mem', bv, l[2])
            if t in st:
                return st[t]
            return t + (v,) if v else t
        if l[0] == 'idx':
            b = l[1]
            bv = self.load(b, st) if b[0] in ('loc', 'idx', 'mem') else b
            if bv[0] == 'vec' and len(l[2]) == 1 and l[2][0][0] == 'num' and isinstance(l[2][0][1], int) and 0 <= l[2][0][1] < len(bv) - 1:
                return bv[1 + l[2][0][1]]
            if bv[0] == '&':
                return self.load(('idx', bv[1], l[2]), st)
            return ('idx', bv, l[2])
        return l

    def store(self, l, v):
        st = self.st
        while l[0] == '&':
            l = l[1]
        for k in [k for k in st if k != l and k[0] != 'ver' and k not in self.frozen and contains(k, l)]:
            del st[k]
        if l[0] == 'mem':
            for k in [k for k in st if k != l and k[0] == 'mem' and k[2] == l[2] and k[1] != l[1] and not (root(k)[0] == 'loc' and root(l)[0] == 'loc')]:
                st[k] = ('sym', ('alias', self.tag, self.cur, k))
        if l[0] == 'idx':
            for k in [k for k in st if k != l and k[0] == 'idx' and k[1] == l[1]]:
                if not self.distinct(k[2], l[2]):
                    st[k] = ('sym', ('alias', self.tag, self.cur, k))
        st[l] = v
        self.kills[self.blk].add(l)
        if self.final and self.onstore:
            self.onstore(self, l, v)
        b = l[1] if l[0] in ('mem', 'idx') else None
        while b is not None and b[0] in ('loc', 'idx', 'mem'):
            if b in st and not (st[b][0] in ('vec', 'sym', 'new', 'out')):
                if b[0] == 'loc' and st[b][0] in ('&',):
                    break
                st[b] = ('sym', ('mod', self.tag, self.cur, b))
            elif b in st and st[b][0] == 'vec' and l[0] == 'idx' and l[1] == b:
                j = l[2][0]
                items = list(st[b])
                if j[0] == 'num' and isinstance(j[1], int) and 0 <= j[1] < len(items) - 1:
                    items[1 + j[1]] = v
                else:
                    items = ['vec'] + [('sym', ('mod', self.tag, self.cur, b, x)) for x in range(len(items) - 1)]
                st[b] = tuple(items)
            b = b[1] if b[0] in ('mem', 'idx') else None

    @staticmethod
    def distinct(a, b):
        for x, y in zip(a, b):
            if x[0] == y[0] == 'num' and x[1] != y[1]:
                return True
            bx, ox = offset(x)
            by, oy = offset(y)
            if bx == by and ox != oy:
                return True
        return False

    def kill(self, l, v):
        while l[0] == '&':
            l = l[1]
        if l[0] in ('loc', 'mem', 'idx'):
            self.store(l, v)

    # ---------------------------------------------------------- expressions
    def visit(self, i):
        if i in self.val:
            return
        self.cur = i
        self.val[i] = self.eval(i)

    def v(self, i):
        if i is None or i < 0:
            return ('sym', 'none')
        if i not in self.val:
            c = self.cur
            self.cur = i
            self.val[i] = self.eval(i)
            self.cur = c
        return self.val[i]

    def lv(self, i):
        """Location denoted by node i."""
        if i in self.lval:
            return self.lval[i]
        self.lval[i] = r = self._lv(i)
        return r

    def _lv(self, i):
        nd = self.fn.nodes[i]
        k = nd['k']
        if k == 'ref':
            if nd.get('vk') in ('local', 'param', 'slocal'):
                d = nd['d']
                return self.alias.get(d) or self.bind_loc(d)
            return ('glob', nd.get('q') or nd['n'])
        if k == 'mem':
            b = nd['c'][0] if nd.get('c') else None
            return ('mem', self.obj(b), nd['n'])
        if k == 'cast' or k == 'init' and len(nd['c']) == 1:
            return self.lv(nd['c'][0])
        if k == 'sub':
            return ('idx', self.deref(self.v(nd['c'][0]), nd['c'][0]), (self.v(nd['c'][1]),))
        if k == 'un' and nd['op'] == '*':
            return self.deref(self.v(nd['c'][0]), nd['c'][0])
        if k == 'un' and nd['op'] in ('++', '--') and not nd.get('post'):
            return self.lv(nd['c'][0])
        if k == 'bin' and nd.get('asg'):
            return self.lv(nd['c'][0])
        if k == 'call':
            op, r, c = nd.get('op'), nd.get('recv', -1), nd.get('c', [])
            if op in ('[]', '()') and r >= 0 and c and nd.get('u') not in self.P.fns or op == '[]' and r >= 0:
                return ('idx', self.lv(r), tuple(self.v(x) for x in c))
            if op in ('*', '->') and r >= 0 and not c:
                return self.deref(self.v(r), r)
            if name(nd) == 'at' and r >= 0 and c:
                return ('idx', self.lv(r), tuple(self.v(x) for x in c))
            if op == '=' and r >= 0:
                return self.lv(r)
        return self.v(i)

    def bind_loc(self, d):
        return ('loc', self.tag + (d,))

    def obj(self, b):
        """Object whose member is accessed through node b."""
        if b is None:
            return self.this
        nd = self.fn.nodes[b]
        if nd['k'] == 'this':
            return self.this
        t = nd.get('t', '')
        if t.rstrip().endswith('*') or t.rstrip().endswith('*const'):
            return self.deref(self.v(b), b)
        return self.lv(b)

    def deref(self, v, i):
        if v[0] == '&':
            return v[1]
        return v

    def eval(self, i):
        f = self.fn
        nd = f.nodes[i]
        k = nd['k']
        c = nd.get('c', [])
        if k == 'lit':
            return ('num', nd.get('v'))
        if k == 'null':
            return ('num', 0)
        if k == 'str':
            return ('str', nd['v'])
        if k == 'this':
            return self.this
        if k == 'zero':
            return ('num', 0)
        if k == 'ref':
            if nd.get('vk') in ('local', 'param', 'slocal'):
                d = nd['d']
                if d in self.bind and self.bind_loc(d) not in self.st and d not in self.alias:
                    return self.bind[d]
                l = self.lv(i)
                return self.load(l, self.st)
            return ('glob', nd.get('q') or nd['n'])
        if k in ('mem', 'sub'):
            return self.load(self.lv(i), self.st)
        if k == 'cast':
            return self.v(c[0]) if c else ('sym', (self.tag, i))
        if k == 'init':
            if len(c) == 1 and not ('vector' in nd.get('t', '') or '[' in nd.get('t', '')):
                return self.v(c[0])
            return ('vec',) + tuple(self.v(x) for x in c)
        if k == 'un':
            o = nd['op']
            if o == '&':
                return ('&', self.lv(c[0]))
            if o == '*':
                return self.load(self.lv(i), self.st) if self.lv(i)[0] in ('loc', 'mem', 'idx') else self.lv(i)
            if o in ('++', '--'):
                l = self.lv(c[0])
                old = self.v_now(c[0])
                new = add(old, 1 if o == '++' else -1)
                self.kill(l, new)
                return old if nd.get('post') else new
            if o == '+':
                return self.v(c[0])
            if o == '-':
                x = self.v(c[0])
                return ('num', -x[1]) if x[0] == 'num' and isinstance(x[1], (int, float)) else ('op', 'neg', x)
            return ('op', o, self.v(c[0]))
        if k == 'bin':
            if nd.get('asg'):
                r = self.v(c[1])
                l = self.lv(c[0])
                if nd['op'] != '=':
                    r = self.arith(nd['op'][:-1], self.v_now(c[0]), r)
                self.kill(l, r)
                return r
            if nd['op'] == '/' and nd.get('t', '').split()[-1:] and nd['t'].split()[-1] in INTS:
                return self.arith('div', self.v(c[0]), self.v(c[1]))
            return self.arith(nd['op'], self.v(c[0]), self.v(c[1]))
        if k == 'cond':
            return ('op', '?:', self.v(c[0]), self.v(c[1]), self.v(c[2]))
        if k == 'decl':
            for w in nd['vars']:
                self.declare(w)
            return ('sym', 'decl')
        if k == 'ctor':
            return self.ctor(i, nd, c)
        if k == 'call':
            return self.call(i, nd, c)
        if k == 'new':
            return self.v(nd['ini']) if nd.get('ini', -1) >= 0 else ('new', nd.get('t', ''), (self.tag, i))
        if k == 'lambda':
            return ('lambda', nd['u'], tuple((x['n'], x['d']) for x in nd.get('caps', []) if 'd' in x), self.tag)
        for x in c:
            self.v(x)
        return ('sym', (self.tag, i))

    def v_now(self, i):
        nd = self.fn.nodes[i]
        if nd['k'] in ('ref', 'mem', 'sub', 'call', 'un') and nd['k'] != 'call':
            l = self.lv(i)
            if l[0] == 'loc' and l not in self.st and nd.get('d') in self.bind:
                return self.bind[nd['d']]
            return self.load(l, self.st)
        return self.v(i)

    def arith(self, o, a, b):
        num = lambda x: x[0] == 'num' and isinstance(x[1], (int, float)) and not isinstance(x[1], bool)
        if num(a) and num(b) and o in ('+', '-', '*'):
            return ('num', a[1] + b[1] if o == '+' else a[1] - b[1] if o == '-' else a[1] * b[1])
        if o == '+' and num(b) and isinstance(b[1], int):
            return add(a, b[1])
        if o == '+' and num(a) and isinstance(a[1], int):
            return add(b, a[1])
        if o == '-' and num(b) and isinstance(b[1], int):
            return add(a, -b[1])
        if o == '+' and a[0] == 'add':
            return add(self.arith('+', a[1], b), a[2])
        if o == '+' and b[0] == 'add':
            return add(self.arith('+', a, b[1]), b[2])
        if o == '-' and a[0] == 'add':
            return add(self.arith('-', a[1], b), a[2])
        if o == '-' and b[0] == 'add':
            return add(self.arith('-', a, b[1]), -b[2])
        if o == '-' and a == b:
            return ('num', 0)
        if o in ('+', '*', '&&', '||', '==', '!=') and repr(b) < repr(a):
            a, b = b, a
        return ('op', o, a, b)

    def declare(self, w):
        d, t, ini = w['d'], w.get('t', ''), w.get('init', -1)
        l = self.bind_loc(d)
        self.alias.pop(d, None)
        if ini is None or ini < 0:
            self.store(l, ('sym', ('undef', self.tag, d)))
            return
        if t.rstrip().endswith('&'):
            x = self.lv(ini)
            if x[0] in ('loc', 'mem', 'idx', 'glob'):
                self.alias[d] = x
                return
        if t.rstrip().endswith(']') and self.v(ini)[0] != 'vec':
            self.store(l, ('sym', ('undef', self.tag, d)))
            return
        self.store(l, self.v(ini))

    def args(self, nd, c):
        return tuple(self.v(x) for x in c)

    def ctor(self, i, nd, c):
        cls = strip_tpl(nd.get('cls', ''))
        if nd.get('cm') and len(c) == 1:
            return self.v(c[0])
        if cls == 'std::vector' and c:
            a0 = self.fn.nodes[c[0]]
            v0 = self.v(c[0])
            if v0[0] == 'vec':
                return v0
            if v0[0] == 'num' and isinstance(v0[1], int) and v0[1] <= 16 and 'std::vector' not in a0.get('t', ''):
                z = self.v(c[1]) if len(c) > 1 and self.fn.nodes[c[1]]['k'] in ('lit', 'ref', 'cast') and 'allocator' not in self.fn.nodes[c[1]].get('t', '') else ('num', 0)
                return ('vec',) + (z,) * v0[1]
        if cls in CTOR_FORWARD and c:
            return self.v(c[0])
        if len(c) == 1 and cls in ('std::initializer_list',):
            return self.v(c[0])
        a = self.args(nd, c)
        self.effects(i, nd, c)
        if not a or cls.split('::')[-1] in self.ident:
            return ('new', cls, (self.tag, i))
        return ('new', cls) + a

    def call(self, i, nd, c):
        op, r = nd.get('op'), nd.get('recv', -1)
        n = name(nd)
        if op == '=' and r >= 0 and c:
            v = self.v(c[0])
            self.kill(self.lv(r), v)
            return v
        if op in ('[]', '()') and r >= 0 and c and nd.get('u') not in self.P.fns or op == '[]' and r >= 0:
            rv = self.v(r)
            if rv[0] != 'lambda':
                for x in c:
                    self.v(x)
                return self.load(self.lv(i), self.st)
        if op in ('*', '->') and r >= 0 and not c:
            l = self.deref(self.v(r), r)
            return self.load(l, self.st) if op == '*' and l[0] in ('loc', 'mem', 'idx') else l
        if op in ('++', '--') and r >= 0:
            old = self.v_now(r)
            self.kill(self.lv(r), add(old, 1 if op == '++' else -1))
            return old if c else self.load(self.lv(r), self.st)
        if op in ('+=', '-=', '*=', '/=') and (r >= 0 and c or len(c) == 2):
            a, b = (r, c[0]) if r >= 0 else (c[0], c[1])
            v = self.arith(op[0], self.v_now(a), self.v(b))
            self.kill(self.lv(a), v)
            return v
        if op in ('+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>=') :
            a = ([r] if r >= 0 else []) + c
            if len(a) == 2:
                return self.arith(op, self.v(a[0]), self.v(a[1]))
            if len(a) == 1 and op == '-':
                return ('op', 'neg', self.v(a[0]))
        if n == 'swap' and len(c) == 2 and nd.get('q', '').startswith('std::'):
            a, b = self.v_now(c[0]), self.v_now(c[1])
            self.kill(self.lv(c[0]), b)
            self.kill(self.lv(c[1]), a)
            return ('sym', (self.tag, i))
        sub = self.enter(i, nd, c)
        if sub is not None:
            return sub
        a = self.args(nd, c)
        if n in FORWARD and nd.get('u') not in self.P.fns:
            if r >= 0:
                x = self.v(r)
                return x
            if len(a) == 1:
                return a[0]
        rv = ()
        if r >= 0:
            t = self.fn.nodes[r].get('t', '')
            rv = (self.deref(self.v(r), r) if t.rstrip().endswith('*') else self.v(r),)
        self.effects(i, nd, c)
        if n in ('make_shared', 'make_unique'):
            return ('new', n, (self.tag, i)) + a
        return ('call', n) + rv + a

    def enter(self, i, nd, c):
        if self.depth > self.deepest or self.inline is None:
            return None
        r = nd.get('recv', -1)
        env, this, g = {}, self.this, None
        lam = self.v(r) if r >= 0 and nd.get('op') == '()' else None
        if lam and lam[0] == 'lambda' and lam[1] in self.P.fns:
            g = self.P.fns[lam[1]]
            outer = dict(lam[2])
            for x in g.nodes:
                if x['k'] == 'ref' and x.get('n') in outer and x.get('d') not in g.locals:
                    env[x['d']] = ('loc', lam[3] + (outer[x['n']],))
        elif nd.get('u') in self.P.fns and not nd.get('virt'):
            g = self.P.fns[nd['u']]
            if r >= 0:
                t = self.fn.nodes[r].get('t', '')
                this = self.obj(r)
        if g is None or g.entry is None or g is self.fn or not self.inline(g):
            return None
        sub = type(self).__new__(type(self))
        self.copy_to(sub)
        sub.P, sub.fn, sub.inline, sub.mods, sub.hook, sub.depth = self.P, g, self.inline, self.mods, self.hook, self.depth + 1
        sub.tag = self.tag + (i,)
        sub.up = self
        sub.frozen, sub.ident = self.frozen, self.ident
        sub.onstore = self.onstore
        sub.alias, sub.bind, sub.kills, sub.this, sub.outerfinal = {}, {}, {}, this, self.final
        vs = [self.v(x) for x in c]
        sub.start = dict(self.st)
        for p, x, v in zip(g.params, c, vs):
            if p['t'].rstrip().endswith('&'):
                l = self.lv(x)
                if l[0] in ('loc', 'mem', 'idx', 'glob') or l[0] in ('sym', 'new', 'this') and self.pointee(x):
                    sub.alias[p['d']] = l
                    continue
            sub.start[('loc', sub.tag + (p['d'],))] = v
        sub.alias.update(env)
        al = dict(sub.alias)
        sub.loops()
        sub.run(True)
        sub.alias = dict(al)
        sub.run(False)
        self.nested[i] = sub
        if g.exit in sub.ins:
            self.st.clear()
            self.st.update(sub.ins[g.exit])
        for ks in sub.kills.values():
            self.kills[self.blk] |= ks
        rets = [x for x, y in enumerate(g.nodes) if y['k'] == 'ret' and y.get('c') and x in sub.val]
        if len(rets) == 1:
            return sub.v(g.nodes[rets[0]]['c'][0])
        return ('sym', ('ret', self.tag, i))

    def pointee(self, x):
        while self.fn.nodes[x]['k'] == 'cast':
            x = self.fn.nodes[x]['c'][0]
        nd = self.fn.nodes[x]
        return nd.get('op') == '*' and nd['k'] in ('un', 'call')

    def effects(self, i, nd, c):
        """Arguments and receiver changed by a call."""
        if self.hook and self.final and nd['k'] == 'call':
            self.hook(self, i, nd)
        pt = nd.get('pt', [])
        for j, x in enumerate(c):
            t = pt[j] if j < len(pt) else ''
            av = self.v(x)
            mut = t.endswith('&') and not t.startswith('const ') and not t.endswith('&&')
            if mut:
                self.kill(self.lv(x), ('out', self.tag + (i,), j))
            elif av[0] == '&' and not (t.startswith('const ') and t.endswith('*')):
                self.kill(av[1], ('out', self.tag + (i,), j))
            elif t.rstrip().endswith('*') and not t.startswith('const '):
                y = x
                while self.fn.nodes[y]['k'] == 'cast' or self.fn.nodes[y]['k'] == 'call' and name(self.fn.nodes[y]) in FORWARD and self.fn.nodes[y].get('recv', -1) >= 0:
                    z = self.fn.nodes[y]
                    y = z['recv'] if z['k'] == 'call' else z['c'][0]
                if y != x:
                    l = self.lv(y)
                    if l[0] in ('loc', 'mem', 'idx') and not self.fn.nodes[y].get('t', '').rstrip().endswith('*'):
                        self.kill(l, ('out', self.tag + (i,), j))
        r = nd.get('recv', -1)
        if nd['k'] == 'call' and r >= 0 and not nd.get('cst') and name(nd) not in SAME and nd.get('op') not in ('[]', '()', '->', '*'):
            ptr = self.fn.nodes[r].get('t', '').rstrip().removesuffix('const').rstrip().endswith('*')
            l = self.deref(self.v(r), r) if ptr else self.lv(r)
            if l[0] in ('loc', 'mem', 'idx') and not (ptr and l == self.lv(r)):
                self.kill(l, ('sym', ('mod', self.tag, i, l)))
        if self.mods and nd.get('u') in self.P.fns:
            for t in self.P.targets(nd):
                for fld in self.mods.mod.get(t.u, ()):
                    for k in [k for k in self.st if k[0] == 'mem' and k[2] == fld]:
                        del self.st[k]
                    self.st[('ver', fld)] = ('sym', (self.tag, i))
                    self.kills[self.blk].add(('mem', ('any',), fld))
