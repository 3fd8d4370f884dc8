"""R02: a lookup that may come back empty is tested before it is used."""
from prog import Prog, strip_tpl, PUBLIC
from locks import SMARTQ, ITER, simple_return
from nullness import Nullness, is_ptr, is_smart, is_iter, bare
from result import Result

RULE = ('nullness dataflow over every function: a pointer obtained from a lookup that can return null '
        '(find() of an id, a result that has not been computed yet, a failed cast) is refined by tests on every '
        'path before it is dereferenced or handed to a function that dereferences it unconditionally')


def derefs(f, e):
    """(pointer node, how) dereferenced by element e."""
    nd = f.nodes[e]
    k = nd['k']
    if k == 'mem' and nd.get('arrow'):
        b = nd['c'][0]
        if f.nodes[b]['k'] != 'call' or f.nodes[b].get('op') != '->':
            yield b, 'member access'
    elif k == 'un' and nd['op'] == '*':
        yield nd['c'][0], 'dereference'
    elif k == 'sub' and is_ptr(f.nodes[nd['c'][0]].get('t', '')):
        yield nd['c'][0], 'subscript'
    elif k == 'call':
        if nd.get('recv', -1) >= 0:
            q = strip_tpl(nd.get('q', ''))
            if nd.get('op') in ('->', '*') and (q.startswith(SMARTQ) or ITER.search(nd.get('cls', ''))):
                yield nd['recv'], 'dereference'
            elif nd.get('q', '').split('::')[-1] == 'erase' and nd.get('c') and is_iter(f.nodes[nd['c'][0]].get('t', '')):
                yield nd['c'][0], 'erase'
            elif nd.get('arrow'):
                r = nd['recv']
                if f.nodes[r]['k'] != 'this' and not (f.nodes[r]['k'] == 'call' and f.nodes[r].get('op') == '->'):
                    yield r, 'member call'


class Nullable:
    def __init__(self, P):
        self.P = P
        self.N = Nullness(P)
        self.fields()
        N = self.N
        N.nullable = self.tested
        N._flow = {}
        self.returns()
        self.params()

    def fields(self):
        """Pointer members that some constructor leaves empty."""
        P, N = self.P, self.N
        self.tested = {}
        for f in P.fns.values():
            if f.kind != 'ctor' or f.r.get('cm') or f.cls not in P.classes:
                continue
            for it in f.inits:
                n = it.get('f')
                fl = P.classes[f.cls].fields.get(n)
                if not fl or not is_ptr(fl['t']) or fl['t'].endswith('&') or 'weak_ptr' in fl['t'] or '[]' in fl['t'] or fl.get('acc', 0) == PUBLIC:
                    continue
                empty = N.value(f, it['n'], {'copies': frozenset()}) == 'N' if it.get('n', -1) >= 0 else is_smart(fl['t'])
                if not empty and not (is_smart(fl['t']) and not it.get('w') and not it.get('inclass')):
                    continue
                # assigned in the constructor body?
                out = self.exit_state(f, n)
                if out != 'V':
                    self.tested[(f.cls, n)] = (f, it.get('n', -1))

    def exit_state(self, f, n):
        N = self.N
        IN = N.flow(f, {'copies': frozenset(), ('this', n): 'N'})
        st = IN.get(f.exit)
        if st is None:
            return None
        v = st.get(('this', n))
        return v if v in ('N', None) else 'V' if v == 'V' else 'N'

    def istest(self, f, c, x):
        st = N = self.N
        a = N.cond(f, c, True, {'copies': frozenset()})
        b = N.cond(f, c, False, {'copies': frozenset()})
        p = N.path(f, x)
        for s in (a, b):
            if s and p in s:
                return True
        return False

    def returns(self):
        P, N = self.P, self.N
        changed = True
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            N._flow = {}
            for f in P.fns.values():
                if f.u in N.fn_null or not is_ptr(f.r.get('rt', '')) or f.r['rt'].endswith('&') and False:
                    continue
                why = []

                def visit(e, st, f=f, why=why):
                    if isinstance(e, int) and f.nodes[e]['k'] == 'ret' and f.nodes[e]['c']:
                        v = N.value(f, f.nodes[e]['c'][0], st)
                        if v == 'N':
                            why.append('returns null at ' + f.loc(e))
                        elif isinstance(v, tuple):
                            why.append(v[1])
                        else:
                            r = f.nodes[e]['c'][0]
                            p = N.path(f, r)
                            if v is None and p and len(p) == 2 and p[0] == 'this' and (f.cls, p[1]) in self.tested:
                                why.append(f'{p[1]} is empty after construction')
                N.scan(f, visit)
                if why:
                    N.fn_null[f.u] = why[0]
                    changed = True
        N._flow = {}

    def params(self):
        """Parameters dereferenced before any test, on every entry."""
        P, N = self.P, self.N
        self.needs = {}
        for f in P.fns.values():
            s = set()
            ids = {p['d']: k for k, p in enumerate(f.params) if is_ptr(p['t'])}
            if not ids or f.entry is None:
                continue
            init = {'copies': frozenset()}
            for d in ids:
                init[(('v', d),)] = ('src', 'argument')
            IN = N.flow(f, init)
            for b, blk in f.blocks.items():
                st = IN[b]
                if st is None:
                    continue
                for e in blk['el']:
                    if isinstance(e, int):
                        for x, how in derefs(f, e):
                            p = N.path(f, x)
                            if p and len(p) == 1 and p[0][0] == 'v' and p[0][1] in ids and st.get(p) == ('src', 'argument'):
                                s.add((ids[p[0][1]], e))
                    st = N.transfer(f, e, st)
            for k, e in s:
                self.needs.setdefault((f.u, k), (f, e))
        direct = set(self.needs)
        self.stored()
        self.forwarded()
        self.kept = set(self.needs) - direct

    def stored(self):
        """Constructor parameters kept in a member that some method of the
        class dereferences without testing it."""
        P, N = self.P, self.N
        used = {}

        def guarded(f, p, seen=()):
            """Every caller inside the class has tested the member."""
            sites = [(g, i) for g, i in P.callers.get(f.u, []) if g.cls == f.cls]
            if not sites or len(sites) != len(P.callers[f.u]) or f.u in seen:
                return False
            for g, i in sites:
                ok = []

                def at(e, st):
                    if e == i:
                        ok.append(st.get(p) == 'V')
                N.scan(g, at)
                if not (ok and all(ok)) and not guarded(g, p, seen + (f.u,)):
                    return False
            return True
        for f in P.fns.values():
            if f.entry is None or not f.cls or f.kind == 'ctor':
                continue

            def visit(e, st, f=f):
                if isinstance(e, int):
                    for x, how in derefs(f, e):
                        p = N.path(f, x)
                        if p and len(p) == 2 and p[0] == 'this' and p not in st and is_ptr(f.nodes[x].get('t', '')) and not guarded(f, p):
                            used.setdefault((f.cls, p[1]), (f, e))
            N.scan(f, visit)
        for f in P.fns.values():
            if f.kind != 'ctor' or f.r.get('cm') or f.cls not in P.classes:
                continue
            ids = {p['d']: k for k, p in enumerate(f.params) if is_ptr(p['t'])}
            if not ids:
                continue
            tested = set()
            for b in f.blocks.values():
                c = b.get('lc', b.get('tc'))
                if isinstance(c, int) and c >= 0:
                    tested |= {f.nodes[x].get('d') for x in f.walk(c) if f.nodes[x]['k'] == 'ref'}
            def source(i):
                p = N.path(f, i)
                if p and len(p) == 1 and p[0][0] == 'v' and p[0][1] in ids and p[0][1] not in tested:
                    return ids[p[0][1]]
            for it in f.inits:
                if it.get('n', -1) >= 0 and (f.cls, it.get('f')) in used:
                    k = source(it['n'])
                    if k is not None:
                        self.needs.setdefault((f.u, k), used[(f.cls, it['f'])])
            for i, nd in enumerate(f.nodes):
                l = r = -1
                if nd['k'] == 'bin' and nd.get('asg'):
                    l, r = nd['c'][0], nd['c'][1]
                elif nd['k'] == 'call' and nd.get('op') == '=' and nd.get('recv', -1) >= 0 and nd['c']:
                    l, r = nd['recv'], nd['c'][0]
                if l >= 0 and f.nodes[l]['k'] == 'mem':
                    p = N.path(f, l)
                    if p and len(p) == 2 and p[0] == 'this' and (f.cls, p[1]) in used:
                        k = source(r)
                        if k is not None:
                            self.needs.setdefault((f.u, k), used[(f.cls, p[1])])

    def forwarded(self):
        P, N = self.P, self.N
        ch = True
        while ch:
            ch = False
            for f in P.fns.values():
                ids = {p['d']: k for k, p in enumerate(f.params) if is_ptr(p['t'])}
                if not ids or f.entry is None:
                    continue
                init = {'copies': frozenset()}
                for d in ids:
                    init[(('v', d),)] = ('src', 'argument')
                IN = N.flow(f, init)
                for b, blk in f.blocks.items():
                    st = IN[b]
                    if st is None:
                        continue
                    for e in blk['el']:
                        if isinstance(e, int) and f.nodes[e]['k'] in ('call', 'ctor'):
                            nd = f.nodes[e]
                            for t in P.targets(nd):
                                for k, a in enumerate(nd.get('c', [])):
                                    if (t.u, k) in self.needs:
                                        p = N.path(f, a)
                                        if p and len(p) == 1 and p[0][0] == 'v' and p[0][1] in ids and st.get(p) == ('src', 'argument'):
                                            if (f.u, ids[p[0][1]]) not in self.needs:
                                                self.needs[(f.u, ids[p[0][1]])] = self.needs[(t.u, k)]
                                                ch = True
                        st = N.transfer(f, e, st)


def run(P):
    R = Result()
    R.rule = RULE
    A = Nullable(P)
    N = A.N
    R.count('lookups that may return null', len(N.fn_null))
    R.count('parameters that must not be null', len(A.needs))
    for u, why in sorted(N.fn_null.items()):
        R.sample(f'{P.fns[u].short}: {why}', 40)
    for f in P.fns.values():
        def visit(e, st, f=f):
            if not isinstance(e, int):
                return
            for x, how in derefs(f, e):
                R.count('dereferences')
                v = N.value(f, x, st)
                if is_iter(f.nodes[x].get('t', '')):
                    R.count('iterator uses')
                if v == 'N' or isinstance(v, tuple):
                    R.count('of nullable')
                    why = 'null' if v == 'N' else v[1]
                    R.violation(f'{f.short}|{f.text(x)}', f'{f.short}: {how} of {f.text(x)} which may be null: {why}', f.loc(e))
            nd = f.nodes[e]
            if nd['k'] in ('call', 'ctor'):
                for t in P.targets(nd):
                    for k, a in enumerate(nd.get('c', [])):
                        if (t.u, k) in A.needs:
                            # an explicit nullptr chooses the variant without that object
                            if (t.u, k) in A.kept and N.isnull(f, a):
                                continue
                            v = N.value(f, a, st)
                            R.count('pointer arguments')
                            if v == 'N' or isinstance(v, tuple):
                                g, ge = A.needs[(t.u, k)]
                                R.violation(f'{f.short}|{f.text(a)}|{t.short}', f'{f.short}: passes {f.text(a)}, which may be null ({"null" if v == "N" else v[1]}), to {t.short} which dereferences it at {g.loc(ge)}', f.loc(e))
        N.scan(f, visit)
    return R


if __name__ == '__main__':
    P = Prog()
    R = run(P)
    print(dict(R.counts))
    for s in R.samples:
        print('  ', s)
    for k, (m, l) in R.violations.items():
        print(l, m)
