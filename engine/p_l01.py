"""L01: members that describe the same thing stay in agreement."""
from prog import Prog, strip_tpl
from assign import context, WRITE, RW, ELEM, READ, SETTER
from cfgutil import *
from result import Result, Broken

RULE = ('typestate over every path of every constructor, setter and query of the attitude class, same-object calls followed: an angle is read only when it is known, '
        'the rotation is always computed from all three angles or all three angles are dropped or recomputed with it; '
        'and over every path of the eigenray collector: each eigenray that is stored is counted and compared with the first arrival time')

KNOWN, MISSING, STALE = 'known', 'may be missing', 'outdated'


def run(P):
    R = Result()
    R.rule = RULE
    attitude(P, R)
    counters(P, R)
    return R


def find_class(P):
    """The class that keeps angles, any of which may be NaN, and a matrix."""
    for c in P.classes.values():
        ang = [n for n, f in c.fields.items() if f['t'] == 'double']
        mat = [n for n, f in c.fields.items() if 'c_matrix' in f['t']]
        if len(ang) == 3 and len(mat) == 1 and strip_tpl(c.name).endswith('::orientation'):
            return c, sorted(ang), mat[0]
    raise Broken('attitude class not found')


class Attitude:
    def __init__(self, P, R, c, ang, mat):
        self.P, self.R, self.c, self.ang, self.mat = P, R, c, ang, mat
        self.reported = set()

    def own(self, fn, i):
        nd = fn.nodes[i]
        if nd['k'] == 'mem' and nd['n'] in self.ang + [self.mat] and nd['cls'] == self.c.name and fn.nodes[nd['c'][0]]['k'] == 'this':
            return nd['n']
        return None

    def other(self, fn, i):
        """Member of another object of the same class."""
        nd = fn.nodes[i]
        if nd['k'] == 'mem' and nd['n'] in self.ang + [self.mat] and nd['cls'] == self.c.name and fn.nodes[nd['c'][0]]['k'] != 'this':
            return nd['n']
        return None

    def sources(self, fn, i):
        """Own and foreign members and constants that expression i depends on."""
        out, seen, work = set(), set(), [i]
        while work:
            x = work.pop()
            if x is None or x < 0 or x in seen:
                continue
            seen.add(x)
            for y in fn.walk(x):
                nd = fn.nodes[y]
                o = self.own(fn, y)
                if o:
                    out.add(o)
                f = self.other(fn, y)
                if f:
                    b = fn.nodes[nd['c'][0]]
                    out.add(('other', b.get('d'), f))
                if nd['k'] == 'call' and 'u' in nd and nd.get('recv', -1) >= 0 and nd.get('cls') == self.c.name:
                    g = self.P.fns.get(nd['u'])
                    if g is not None and g.u != fn.u:
                        here = fn.nodes[nd['recv']]['k'] == 'this'
                        for s in self.returns(g):
                            out.add(s if here else ('other', fn.nodes[nd['recv']].get('d'), s))
                if nd['k'] == 'ref' and nd.get('vk') == 'local':
                    v = fn.locals.get(nd['d'])
                    if v and v.get('init', -1) >= 0:
                        work.append(v['init'])
                    work.extend(self.defs(fn).get(nd['d'], ()))
        return out

    def returns(self, g):
        out = set()
        for nd in g.nodes:
            if nd['k'] == 'ret' and nd.get('c'):
                for y in g.walk(nd['c'][0]):
                    o = self.own(g, y)
                    if o:
                        out.add(o)
        return out

    def defs(self, fn):
        if not hasattr(fn, '_ldefs'):
            m = {}
            for nd in fn.nodes:
                a = None
                if nd['k'] == 'bin' and nd.get('asg'):
                    a = nd['c']
                elif nd['k'] == 'call' and nd.get('op') in ('=', '+=', '-=', '*=', '/=', '<<=', ',') and nd.get('recv', -1) >= 0 and nd['c']:
                    a = [nd['recv'], nd['c'][0]]
                elif nd['k'] == 'call' and nd.get('op') in ('=', '+=', '-=', '*=', '/=', '<<=', ',') and len(nd['c']) == 2:
                    a = nd['c']
                if a:
                    l = a[0]
                    while fn.nodes[l]['k'] in ('sub', 'cast') or fn.nodes[l]['k'] == 'call' and (fn.nodes[l].get('op') in ('()', '[]', ',', '<<=')):
                        ln = fn.nodes[l]
                        l = ln['recv'] if ln.get('recv', -1) >= 0 else ln['c'][0]
                    if fn.nodes[l]['k'] == 'ref' and 'd' in fn.nodes[l]:
                        m.setdefault(fn.nodes[l]['d'], []).append(a[1])
            fn._ldefs = m
        return fn._ldefs

    def isnan_of(self, fn, c):
        """(member, True when the condition means it is missing)."""
        c, truth = strip_not(fn, c, True)
        nd = fn.nodes[c]
        if nd['k'] == 'call' and name(nd) == 'isnan' and nd['c']:
            a = nd['c'][0]
            while fn.nodes[a]['k'] == 'cast':
                a = fn.nodes[a]['c'][0]
            o = self.own(fn, a)
            if o:
                return o, truth
        if nd['k'] == 'bin' and nd['op'] in ('==', '!='):
            a, b = [self.own(fn, x) or self.own(fn, fn.nodes[x]['c'][0]) if fn.nodes[x].get('c') and fn.nodes[x]['k'] == 'cast' else self.own(fn, x) for x in nd['c']]
            if a and a == b:
                return a, (nd['op'] == '!=') == truth
        return None

    def viol(self, key, msg, loc):
        if key not in self.reported:
            self.reported.add(key)
            self.R.violation(f'attitude|{key}', msg, loc)

    def isnan_lit(self, fn, i):
        nd = fn.nodes[i]
        while nd['k'] in ('cast', 'un') or nd['k'] == 'bin' and nd.get('asg') or nd['k'] == 'init' and len(nd.get('c', [])) == 1:
            nd = fn.nodes[nd['c'][1] if nd['k'] == 'bin' else nd['c'][0]]
        return nd['k'] == 'lit' and str(nd.get('v')).lower() in ('nan', '-nan') or nd['k'] == 'call' and ('nan' in name(nd).lower())

    def run(self, fn, init, depth=0):
        """State: tuple of (angle states..., rotation state)."""
        if fn.entry is None or depth > 5:
            return {init}
        IN = {fn.entry: {init}}
        work = [fn.entry]
        while work:
            b = work.pop()
            blk = fn.blocks[b]
            sts = set(IN[b])
            for e in blk['el']:
                sts = set().union(*[self.step(fn, e, s, depth) for s in sts]) if sts else set()
            su = blk['su']
            cond = blk.get('lc', blk.get('tc'))
            cn = self.isnan_of(fn, cond) if len(su) == 2 and isinstance(cond, int) and cond >= 0 else None
            for k, s in enumerate(su):
                if s < 0:
                    continue
                out = sts
                if cn:
                    f, truth = cn
                    miss = (k == 0) == truth
                    j = self.ang.index(f) if f in self.ang else None
                    if j is not None:
                        out = set()
                        for st in sts:
                            if miss and st[j] == KNOWN:
                                continue
                            out.add(st[:j] + ((MISSING if miss else KNOWN) if st[j] == MISSING else st[j],) + st[j + 1:])
                if not out <= IN.get(s, set()):
                    IN[s] = IN.get(s, set()) | out
                    work.append(s)
        return IN.get(fn.exit, set())

    def step(self, fn, e, st, depth):
        if isinstance(e, dict):
            if 'initf' in e:
                w = next((x for x in fn.inits if x.get('f') == e['initf']), None)
                if w and w['w'] and e['initf'] in self.ang + [self.mat]:
                    return {self.assign(fn, e['initf'], w['n'], st, fn.loc())}
            return {st}
        nd = fn.nodes[e]
        # calls on the same object
        if nd['k'] == 'call' and 'u' in nd and nd.get('recv', -1) >= 0 and fn.nodes[nd['recv']]['k'] == 'this' and nd.get('cls') == self.c.name:
            g = self.P.fns.get(nd['u'])
            if g is not None:
                return self.run(g, st, depth + 1)
        o = self.own(fn, e)
        if o:
            k, at, d = context(fn, e)
            if k in (READ, RW) and o in self.ang and not self.guard_use(fn, e):
                j = self.ang.index(o)
                if st[j] != KNOWN:
                    self.viol(f'read {fn.n} {o}', f'{fn.short} uses {o} when it is {st[j]}', fn.loc(e))
        # assignments take effect at the assignment node
        a = None
        if nd['k'] == 'bin' and nd.get('asg'):
            a = nd['c']
        elif nd['k'] == 'call' and nd.get('op') in ('=', '+=', '-=', '*=', '/=') and nd.get('recv', -1) >= 0 and nd['c']:
            a = [nd['recv'], nd['c'][0]]
        if a:
            l = a[0]
            partial = False
            while fn.nodes[l]['k'] in ('sub', 'cast') or fn.nodes[l]['k'] == 'call' and fn.nodes[l].get('op') in ('()', '[]') or fn.nodes[l]['k'] == 'call' and name(fn.nodes[l]) == 'noalias':
                ln = fn.nodes[l]
                partial = partial or ln['k'] in ('sub', 'call') and name(ln) != 'noalias'
                l = ln['recv'] if ln.get('recv', -1) >= 0 else ln['c'][0]
            f = self.own(fn, l)
            if f:
                return {self.assign(fn, f, a[1], st, fn.loc(e), self.elements(fn) if partial and f == self.mat else ())}
        if nd['k'] == 'un' and nd['op'] in ('++', '--'):
            f = self.own(fn, nd['c'][0])
            if f in self.ang:
                return {self.assign(fn, f, nd['c'][0], st, fn.loc(e))}
        if nd['k'] == 'call' and nd.get('op') == '<<=' and nd['c']:
            f = self.own(fn, nd['c'][0] if nd.get('recv', -1) < 0 else nd['recv'])
            if f == self.mat:
                # comma initialiser: everything in the full statement is a source
                top = e
                while fn.parents.get(top):
                    top = fn.parents[top][0]
                return {self.assign(fn, f, top, st, fn.loc(e))}
        return {st}

    def guard_use(self, fn, e):
        """isnan(angle) looks at the marker, not at the value."""
        x = e
        for _ in range(4):
            ps = fn.parents.get(x, [])
            if not ps:
                return False
            nd = fn.nodes[ps[0]]
            if nd['k'] == 'call' and name(nd) == 'isnan':
                return True
            if nd['k'] == 'bin' and nd['op'] in ('==', '!=') and self.isnan_of(fn, ps[0]):
                return True
            if nd['k'] != 'cast':
                return False
            x = ps[0]
        return False

    def elements(self, fn):
        """Values assigned to single elements of the rotation."""
        out = []
        for nd in fn.nodes:
            if nd['k'] == 'bin' and nd.get('asg'):
                l = nd['c'][0]
                while fn.nodes[l]['k'] in ('sub', 'cast') or fn.nodes[l]['k'] == 'call' and fn.nodes[l].get('op') in ('()', '[]'):
                    ln = fn.nodes[l]
                    l = ln['recv'] if ln.get('recv', -1) >= 0 else ln['c'][0]
                if self.own(fn, l) == self.mat:
                    out.append(nd['c'][1])
        return out

    def assign(self, fn, f, val, st, loc, more=()):
        st = list(st)
        src = self.sources(fn, val)
        for x in more:
            src |= self.sources(fn, x)
        n = len(self.ang)
        copied = None
        for s in src:
            if isinstance(s, tuple) and s[2] == f:
                copied = s[1]
        if f in self.ang:
            j = self.ang.index(f)
            if self.isnan_lit(fn, val):
                st[j] = MISSING
                return tuple(st)
            # computed from the rotation of the same object
            if self.mat in src:
                if st[n] != KNOWN:
                    self.viol(f'angle from {fn.n} {f}', f'{fn.short} recomputes {f} from an outdated rotation', loc)
                st[j] = KNOWN
                return tuple(st)
            if copied is not None and st[n] == ('copy', copied):
                st[j] = MISSING              # agrees with the copied rotation, may be missing there
                return tuple(st)
            st[j] = KNOWN if copied is None else ('copy', copied)
            st[n] = STALE
            return tuple(st)
        # the rotation
        own = {s for s in src if s in self.ang}
        if own == set(self.ang):
            st[n] = KNOWN
            return tuple(st)
        if self.mat in src and not own and copied is None:
            st[n] = KNOWN
            st[:n] = [STALE] * n
            return tuple(st)
        for j in range(n):
            st[j] = MISSING if copied is not None and st[j] == ('copy', copied) else STALE
        st[n] = ('copy', copied) if copied is not None and len(src) == 1 else KNOWN
        return tuple(st)


def attitude(P, R):
    c, ang, mat = find_class(P)
    A = Attitude(P, R, c, ang, mat)
    n = len(ang)
    nm = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.line, f.u)):
        if f.cls != c.name or f.entry is None or f.r.get('dflt'):
            continue
        private = private_method(P, c, f)
        if private:
            continue                      # judged in the context of its callers
        nm += 1
        R.count('operations of the attitude class')
        init = (STALE,) * n + (STALE,) if f.kind == 'ctor' else (MISSING,) * n + (KNOWN,)
        if f.kind == 'dtor':
            continue
        outs = A.run(f, init)
        for st in sorted(outs, key=str):
            R.count('path states')
            if st[n] == STALE:
                A.viol(f'exit {f.n}/{len(f.params)} rotation', f'{f.short} can end with a rotation that does not belong to the angles', f.loc())
            for j in range(n):
                if st[j] == STALE or isinstance(st[j], tuple):
                    A.viol(f'exit {f.n}/{len(f.params)} {ang[j]}', f'{f.short} can end with {ang[j]} that does not belong to the rotation', f.loc())
        R.sample(f'{f.short}: angles and rotation agree on every path')
    # nobody else touches the members
    for f in P.fns.values():
        if f.cls == c.name:
            continue
        for i, nd in enumerate(f.nodes):
            if nd['k'] == 'mem' and nd.get('cls') == c.name and nd['n'] in ang + [mat]:
                k, at, d = context(f, i)
                if k in (WRITE, RW, ELEM, SETTER):
                    R.violation(f'attitude|outside {strip_tpl(f.short)}', f'{f.short} changes {nd["n"]} behind the back of its class', f.loc(i))
    R.need(nm, 12, 'operations of the attitude class')


def private_method(P, c, f):
    from prog import PRIVATE
    for m in c.methods:
        if m['u'] == f.u:
            return m.get('acc') == PRIVATE
    return False


def counters(P, R):
    """Each stored eigenray is counted and compared with the first arrival."""
    c = P.cls_by_name('eigenray_collection')
    if c is None:
        raise Broken('eigenray collector not found')
    store = [n for n, f in c.fields.items() if 'list<' in f['t'] and 'eigenray_model' in f['t']]
    num = accessor_field(P, c.name, 'num_eigenrays')
    first = accessor_field(P, c.name, 'initial_time')
    if not store:
        raise Broken('list of eigenrays not found')
    count = [n for n, f in c.fields.items() if f['t'] in ('int', 'unsigned long', 'unsigned int', 'long') and not f['t'].startswith('const') and f.get('ini', None) is None or n == (num or ('', ''))[1]]
    times = [n for n, f in c.fields.items() if 'matrix<double' in f['t']]
    k = 0
    for f in P.fns.values():
        if f.cls != c.name or f.entry is None:
            continue
        for i, nd in enumerate(f.nodes):
            if nd['k'] == 'call' and name(nd) in ('push_back', 'push_front', 'emplace_back', 'emplace_front', 'insert') and nd.get('recv', -1) >= 0 and rooted(f, nd['recv'], store):
                k += 1
                R.count('places that store an eigenray')
                incs = [j for j, x in enumerate(f.nodes) if x['k'] == 'un' and x['op'] == '++' and member(f, x['c'][0]) in count
                        or x['k'] == 'bin' and x.get('asg') and member(f, x['c'][0]) in count]
                if not always_with(f, i, incs):
                    R.violation(f'eigenrays|count {f.n}', f'{f.short} stores an eigenray on a path on which it does not count it', f.loc(i))
                for t in times:
                    ws = [j for j, x in enumerate(f.nodes) if (x['k'] == 'bin' and x.get('asg') and rooted(f, x['c'][0], [t]))]
                    if not ws:
                        R.violation(f'eigenrays|first {f.n}', f'{f.short} stores an eigenray without updating {t}', f.loc(i))
    R.need(k, 1, 'places that store an eigenray')


def member(f, i):
    nd = f.nodes[i]
    while nd['k'] == 'cast':
        nd = f.nodes[nd['c'][0]]
    return nd['n'] if nd['k'] == 'mem' else None


def rooted(f, i, names, depth=0):
    nd = f.nodes[i]
    while True:
        if nd['k'] == 'mem':
            return nd['n'] in names
        if nd['k'] in ('cast', 'sub'):
            nd = f.nodes[nd['c'][0]]
        elif nd['k'] == 'un' and nd['op'] in ('*', '&'):
            nd = f.nodes[nd['c'][0]]
        elif nd['k'] == 'call' and nd.get('recv', -1) >= 0:
            nd = f.nodes[nd['recv']]
        elif nd['k'] == 'ref' and nd.get('vk') == 'local' and depth < 5:
            v = f.locals.get(nd['d'])
            return bool(v and v.get('init', -1) >= 0 and (v['t'].endswith('&') or v['t'].endswith('*')) and rooted(f, v['init'], names, depth + 1))
        else:
            return False


def always_with(f, i, others):
    """Every path through element i also passes one of `others`, exactly once."""
    pos = {}
    for b in f.blocks.values():
        for k, e in enumerate(b['el']):
            if isinstance(e, int):
                pos[e] = b['id']
    if i not in pos:
        return True
    S = {f.entry: {(False, 0)}}
    work = [f.entry]
    while work:
        b = work.pop()
        sts = set(S[b])
        for e in f.blocks[b]['el']:
            if e == i:
                sts = {(True, n) for _, n in sts}
            if e in others:
                sts = {(x, min(2, n + 1)) for x, n in sts}
        for s in f.blocks[b]['su']:
            if s >= 0 and not sts <= S.get(s, set()):
                S[s] = S.get(s, set()) | sts
                work.append(s)
    return all(n == 1 for x, n in S.get(f.exit, set()) if x)
