"""Values of fields: symbolic evaluation in which the components of positions
and vectors are members, and (pointwise) matrices are one generic element."""
import re
from fractions import Fraction
from symterm import Sym, walk, root
from cfgutil import name
import algebra as A

COMPS = ('rho', 'theta', 'phi')
VEC = ('wvector', 'wposition', 'wvector1', 'wposition1', 'bvector')
SMALL = ('c_vector', 'c_matrix', 'zero_matrix', 'zero_vector', 'identity_matrix')
ZERO = ('zero',)


def is_vec(t):
    t = t.replace('const ', '').strip().rstrip('&* ').split('::')[-1]
    return t in VEC


def getter(nd):
    return nd['k'] == 'call' and name(nd) in COMPS and nd.get('recv', -1) >= 0 and nd.get('t') != 'void' and len(nd.get('c', [])) in (0, 2)


def setter(nd):
    return nd['k'] == 'call' and name(nd) in COMPS and nd.get('recv', -1) >= 0 and nd.get('t') == 'void' and nd.get('c')


class FSym(Sym):
    pointwise = False
    clearing = ()

    def copy_to(self, sub):
        sub.pointwise, sub.bad, sub.cover = self.pointwise, self.bad, self.cover

    def __init__(self, P, f, pointwise=False, **kw):
        self.pointwise = pointwise
        self.bad, self.cover = [], []
        st = dict(kw.pop('state', None) or {})
        for p in f.params:
            if p['t'].rstrip().removesuffix('const').rstrip().endswith('*'):
                st.setdefault(('loc', (p['d'],)), ('&', ('loc', ('obj', p['d']))))
        super().__init__(P, f, state=st, **kw)

    # the state in which f ends
    def end(self, l):
        return self.load(l, self.ins.get(self.fn.exit, {}))

    def arg(self, n):
        """Location behind the n-th parameter (or the parameter of that name)."""
        p = self.fn.params[n]
        l = ('loc', (p['d'],))
        v = self.start.get(l)
        return v[1] if v and v[0] == '&' else l

    # --------------------------------------------------------------- places
    def comp(self, r, n):
        return ('mem', self.obj(r) if self.fn.nodes[r]['k'] == 'this' or self.isptr(r) else self.lv(r), '.' + n)

    def isptr(self, r):
        return self.fn.nodes[r].get('t', '').rstrip().removesuffix('const').rstrip().endswith('*')

    def _lv(self, i):
        nd = self.fn.nodes[i]
        if nd['k'] == 'call':
            c, r, n = nd.get('c', []), nd.get('recv', -1), name(nd)
            if n == 'noalias' and len(c) == 1:
                return self.lv(c[0])
            if getter(nd):
                l = self.comp(r, n)
                if c and not self.pointwise:
                    return ('idx', l, tuple(self.v(x) for x in c))
                return l
            if self.pointwise and nd.get('op') == '()' and r >= 0 and c and self.elementwise(r):
                for x in c:
                    self.v(x)
                return self.lv(r)
        return super()._lv(i)

    def elementwise(self, r):
        t = self.fn.nodes[r].get('t', '')
        return 'matrix' in t or 'vector' in t and 'seq_vector' not in t

    def load(self, l, st):
        if l[0] == 'mem' and l not in st:
            b = l[1]
            while b[0] == '&':
                b = b[1]
            bv = self.load(b, st) if b[0] in ('loc', 'idx', 'mem') else b
            while bv[0] == '&':
                bv = bv[1]
            if bv == ZERO:
                return ('num', 0)
            if l[2][0] == '.':
                if bv[0] == 'idx' and bv not in st:
                    return ('idx', self.load(('mem', bv[1], l[2]), st), bv[2])
                if bv[0] == 'new' and len(bv) > 2:
                    x = self.component(bv, l[2][1:], st)
                    if x is not None:
                        return x
            if bv != l[1]:
                t = ('mem', bv, l[2])
                if t in st:
                    return st[t]
        if l[0] == 'idx' and l not in st:
            b = l[1]
            bv = self.load(b, st) if b[0] in ('loc', 'mem', 'idx') else b
            while bv[0] == '&':
                bv = bv[1]
            if bv == ZERO or bv[0] == 'new' and bv[1].split('::')[-1].split('<')[0] in ('zero_matrix', 'zero_vector'):
                return ('num', 0)
            if bv[0] == 'mat':
                return element(bv, l[2])
        v = super().load(l, st)
        if l[0] in ('loc', 'mem') and v[0] != 'vec' and v[0] != 'mat':
            es = tuple(sorted(((k[2], st[k]) for k in st if k[0] == 'idx' and k[1] == l), key=repr))
            if es:
                return ('mat', v, es)
        return v

    def widen(self, b, st, preds, oldkills):
        for l in sorted({k for x in self.heads[b] for k in oldkills.get(x, ())}, key=repr):
            const = l[0] != 'idx' or all(x[0] == 'num' for x in l[2])
            for k in [k for k in st if k != l and k[0] != 'ver' and (inside(k, l) or not const and k[0] == 'idx' and k[1] == l[1])]:
                if const:
                    st[k] = self.phi_new(b, k, preds, st[k])
                else:
                    del st[k]
            l = l if const else l[1]
            st[l] = self.phi_new(b, l, preds, st.get(l))

    def component(self, new, c, st):
        """Component c of a constructed vector."""
        n, a = new[1].split('::')[-1], new[2:]
        if n not in VEC:
            return None
        if len(a) == 3 and a[0][0] in ('loc', 'mem', 'idx', 'sym', 'out', 'phi', 'new', '&', 'call', 'op') and self.vecterm(a[0]):
            m = self.load(('mem', a[0], '.' + c), st)
            return m if self.pointwise else ('idx', m, a[1:])
        if len(a) == 3 and n == 'wvector1':
            return a[COMPS.index(c)]
        if len(a) == 1 and self.vecterm(a[0]):
            return self.load(('mem', a[0], '.' + c), st)
        return None

    def vecterm(self, t):
        return t in self.vecs

    def store(self, l, v):
        """Different access paths are different objects."""
        st = self.st
        while l[0] == '&':
            l = l[1]
        gone = [k for k in st if k != l and k[0] != 'ver' and k not in self.frozen and inside(k, l)]
        for k in gone:
            del st[k]
        if l[0] == 'idx':
            for k in [k for k in st if k != l and k[0] == 'idx' and k[1] == l[1]]:
                if not self.distinct(k[2], l[2]):
                    st[k] = ('sym', ('alias', self.tag, self.cur, k))
        st[l] = v
        self.kills[self.blk].add(l)
        if self.final and self.onstore:
            self.onstore(self, l, v)
        if l[0] == 'idx' and l[1] in st and st[l[1]][0] == 'vec':
            items, j = list(st[l[1]]), l[2][0]
            if j[0] == 'num' and isinstance(j[1], int) and 0 <= j[1] < len(items) - 1:
                items[1 + j[1]] = v
            else:
                items = ['vec'] + [('sym', ('mod', self.tag, self.cur, l[1], x)) for x in range(len(items) - 1)]
            st[l[1]] = tuple(items)
            del st[l]

    # ---------------------------------------------------------- expressions
    @property
    def vecs(self):
        s = self
        while s.up is not None:
            s = s.up
        return s.__dict__.setdefault('_vecs', set())

    def eval(self, i):
        v = super().eval(i)
        if is_vec(self.fn.nodes[i].get('t', '')):
            self.vecs.add(v)
        return v

    def declare(self, w):
        super().declare(w)
        ini = w.get('init', -1)
        if ini is not None and ini >= 0 and is_vec(w.get('t', '')) and not w['t'].rstrip().endswith(('&', '*')) and w['d'] not in self.alias:
            l = self.bind_loc(w['d'])
            self.vecs.add(l)
            v = self.st.get(l)
            if v and v[0] in ('loc', 'mem') and v != l:
                for c in COMPS:
                    self.st[('mem', l, '.' + c)] = self.load(('mem', v, '.' + c), self.st)

    def call(self, i, nd, c):
        n, r, op = name(nd), nd.get('recv', -1), nd.get('op')
        if op in ('<<=', ','):
            l = self.filled(nd)
            if l is not None:
                self.store(l, self.v(c[-1]))
                return ('sym', (self.tag, i))
        if getter(nd):
            for x in c:
                self.v(x)
            return self.load(self.lv(i), self.st)
        if setter(nd):
            l = self.comp(r, n)
            if len(c) == 3:
                ix = tuple(self.v(x) for x in c[:2])
                v = self.v(c[2])
                if not self.pointwise:
                    l = ('idx', l, ix)
            else:
                v = self.v(c[0])
                for x in c[1:]:
                    self.v(x)
            if self.hook and self.final:
                self.hook(self, i, nd)
            self.kill(l, v)
            return ('sym', (self.tag, i))
        if n == 'clear' and r >= 0 and not c and (is_vec(self.fn.nodes[r].get('t', '')) or self.elementwise(r)):
            if self.hook and self.final:
                self.hook(self, i, nd)
            l = self.obj(r) if self.isptr(r) or self.fn.nodes[r]['k'] == 'this' else self.lv(r)
            if l[0] in ('loc', 'mem', 'idx'):
                self.store(l, ZERO)
                return ('sym', (self.tag, i))
        if op == '=' and r >= 0 and c and is_vec(self.fn.nodes[r].get('t', '')):
            src = self.lv(c[0]) if self.fn.nodes[c[0]]['k'] in ('ref', 'mem') else self.v(c[0])
            vs = {x: self.load(('mem', src, '.' + x), self.st) for x in COMPS}
            l = self.lv(r)
            self.kill(l, self.v(c[0]))
            for x in COMPS:
                self.st[('mem', l, '.' + x)] = vs[x]
            return self.v(c[0])
        if n == 'noalias' and len(c) == 1:
            return self.v(c[0])
        if n in ('scalar_matrix', 'scalar_vector') and c:
            return self.v(c[-1])
        return super().call(i, nd, c)

    def filled(self, nd):
        """Element that a list of elements for a matrix or vector of fixed size is at."""
        k, ns = 0, self.fn.nodes
        while nd.get('op') == ',' and nd.get('recv', -1) >= 0:
            nd, k = ns[nd['recv']], k + 1
        if nd.get('op') != '<<=' or len(nd.get('c', [])) != 2:
            return None
        m = re.search(r'c_(matrix|vector)<double, (\d+)(?:, (\d+))?>', ns[nd['c'][0]].get('t', ''))
        if not m:
            return None
        l = self.lv(nd['c'][0])
        ix = (k // int(m[3]), k % int(m[3])) if m[1] == 'matrix' else (k,)
        return ('idx', l, tuple(('num', x) for x in ix))

    def ctor(self, i, nd, c):
        n = nd.get('cls', '').split('<')[0].split('::')[-1]
        if n in ('scalar_matrix', 'scalar_vector') and c:
            for x in c:
                self.v(x)
            return self.v(c[-1])
        return super().ctor(i, nd, c)

    def enter(self, i, nd, c):
        if nd.get('virt') and self.inline and self.depth <= self.deepest:
            ts = self.P.targets(nd)
            if len(ts) == 1 and ts[0].u == nd.get('u'):
                nd = dict(nd, virt=False)
        return super().enter(i, nd, c)


def inside(k, l):
    """Location k lies within location l."""
    while k[0] in ('mem', 'idx', '&'):
        k = k[1]
        if k == l:
            return True
    return False


def element(t, ix):
    """Element ix of a small vector or matrix term."""
    if t[0] == 'mat':
        for k, v in t[2]:
            if k == ix:
                return v
        if all(Sym.distinct(k, ix) for k, v in t[2]):
            return element(t[1], ix)
    if t == ZERO or t[0] == 'new' and t[1].split('::')[-1].split('<')[0] in ('zero_matrix', 'zero_vector'):
        return ('num', 0)
    return ('idx', t, ix)

