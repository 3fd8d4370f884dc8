"""M01: heap objects have one owner, and nothing refers to a dead object."""
from collections import defaultdict
from prog import Prog, strip_tpl
from assign import context, WRITE, RW, READ, ELEM, SETTER
from cfgutil import *
from result import Result, Broken

RULE = ('ownership typestate over the control flow graph: every object created with new is adopted exactly once by a smart pointer or by a member that the destructor deletes '
        'on every path with the matching form of delete, or is returned; classes that delete what their members point to cannot be copied and only permute those members; '
        'classes deleted through a base have a virtual destructor; no smart pointer adopts a borrowed pointer; no member, variable, result or loop refers to a '
        'temporary or local object; no container changes while it is iterated and no iterator is used after its element is erased')

SMART = ('std::shared_ptr<', 'std::unique_ptr<')
PEEL_NAMES = {'get', 'c_str', 'data', 'front', 'back', 'at', 'value'}
MUTATE = {'erase', 'insert', 'emplace', 'emplace_back', 'emplace_front', 'clear', 'push_back', 'push_front', 'pop_back', 'pop_front', 'pop', 'push', 'remove',
          'remove_if', 'resize', 'assign', 'splice', 'merge', 'swap', 'sort', 'unique', 'reverse'}
SAFE_LISTS = {'push_back', 'push_front', 'insert', 'emplace', 'emplace_back', 'emplace_front', 'splice', 'merge', 'sort', 'reverse', 'swap'}


def bare(t):
    t = t.strip()
    while t.endswith(('&', ' const')):
        t = t[:-1].strip() if t.endswith('&') else t[:-6].strip()
    return t[6:] if t.startswith('const ') else t


def smart(t):
    return bare(t).startswith(SMART)


def rawptr(t):
    return bare(t).endswith('*')


def peel(fn, i):
    while True:
        nd = fn.nodes[i]
        if nd['k'] in ('cast', 'paren') or nd['k'] == 'init' and len(nd['c']) == 1:
            i = nd['c'][0]
        elif nd['k'] == 'ctor' and nd.get('cm') and len(nd.get('c', [])) == 1:
            i = nd['c'][0]
        else:
            return i


def ptr_arg(fn, i):
    """Node of the raw pointer that the smart pointer operation at node i adopts."""
    nd = fn.nodes[i]
    if nd['k'] == 'ctor' and smart(nd.get('t', '') or nd.get('cls', '')) and nd.get('c'):
        a = peel(fn, nd['c'][0])
        t = fn.nodes[a].get('t', '')
        if rawptr(t) and not nd.get('cm') and fn.nodes[a]['k'] != 'null':
            return a
    if nd['k'] == 'call' and name(nd) == 'reset' and nd.get('c') and nd.get('recv', -1) >= 0 and smart(fn.nodes[nd['recv']].get('t', '')):
        a = peel(fn, nd['c'][0])
        if fn.nodes[a]['k'] != 'null':
            return a
    return None


class Owner:
    """State of one local raw pointer: E nothing to release, F owns, A given away."""

    def __init__(self, P, R, fn, d, n):
        self.P, self.R, self.fn, self.d, self.n = P, R, fn, d, n

    def source(self, i):
        nd = self.fn.nodes[peel(self.fn, i)]
        if nd['k'] == 'new':
            return 'F'
        if nd['k'] == 'cond':
            return 'F' if any(self.fn.nodes[peel(self.fn, c)]['k'] == 'new' for c in nd['c'][1:]) else 'E'
        return 'E'

    def run(self):
        fn, R = self.fn, self.R
        ev = defaultdict(list)
        for i, nd in enumerate(fn.nodes):
            if nd['k'] == 'decl':
                for v in nd['vars']:
                    if v['d'] == self.d:
                        ev[i].append(('set', self.source(v['init']) if v['init'] >= 0 else 'E'))
            elif nd['k'] == 'bin' and nd.get('asg') and nd['op'] == '=' and fn.nodes[nd['c'][0]].get('d') == self.d:
                ev[i].append(('set', self.source(nd['c'][1])))
            elif nd['k'] == 'bin' and nd.get('asg') and nd['op'] == '=' and fn.nodes[peel(fn, nd['c'][1])].get('d') == self.d and fn.nodes[nd['c'][0]]['k'] == 'mem':
                ev[i].append(('give', None))
            elif nd['k'] == 'del' and fn.nodes[peel(fn, nd['c'][0])].get('d') == self.d:
                ev[i].append(('give', None))
            elif nd['k'] == 'ret' and nd.get('c') and fn.nodes[peel(fn, nd['c'][0])].get('d') == self.d:
                ev[i].append(('return', None))
            elif ptr_arg(fn, i) is not None and fn.nodes[ptr_arg(fn, i)].get('d') == self.d:
                ev[i].append(('give', None))
        news = set()
        for i, nd in enumerate(fn.nodes):
            src = None
            if nd['k'] == 'decl':
                src = next((v['init'] for v in nd['vars'] if v['d'] == self.d and v['init'] >= 0), None)
            elif nd['k'] == 'bin' and nd.get('asg') and nd['op'] == '=' and fn.nodes[nd['c'][0]].get('d') == self.d:
                src = nd['c'][1]
            if src is not None:
                x = fn.nodes[peel(fn, src)]
                for y in [x] + [fn.nodes[peel(fn, c)] for c in x['c'][1:]] if x['k'] == 'cond' else [x]:
                    if y['k'] == 'new':
                        news.add(bool(y.get('arr')))
        if len(news) == 1:
            arr = news.pop()
            for i, es in ev.items():
                nd = fn.nodes[i]
                if any(k == 'give' for k, _ in es) and nd['k'] in ('ctor', 'call', 'del'):
                    sub = nd.get('t', '') if nd['k'] == 'ctor' else fn.nodes[nd['recv']].get('t', '') if nd['k'] == 'call' else ''
                    form = bool(nd.get('arr')) if nd['k'] == 'del' else '[]' in sub
                    if form != arr:
                        R.violation(f'{fn.short}|form {self.n}', f'{fn.short} releases what {self.n} points to with the wrong form of delete', fn.loc(i))
        IN = {fn.entry: frozenset('E')}
        work = [fn.entry]
        said = set()

        def err(key, msg, e):
            if key not in said:
                said.add(key)
                R.violation(f'{fn.short}|{key} {self.n}', msg, fn.loc(e))
        while work:
            b = work.pop()
            st = IN[b]
            throws = False
            for e in fn.blocks[b]['el']:
                if isinstance(e, dict):
                    continue
                if fn.nodes[e]['k'] == 'throw':
                    throws = True
                for k, v in ev.get(e, ()):
                    if k == 'set':
                        if 'F' in st:
                            err('leak', f'{fn.short} loses the object that {self.n} points to', e)
                        st = frozenset(v)
                    else:
                        if 'A' in st and k == 'give':
                            err('twice', f'{fn.short} gives the object that {self.n} points to to a second owner', e)
                        st = frozenset('A' if s == 'F' else s for s in st)
            for s in fn.blocks[b]['su']:
                if s < 0:
                    continue
                if s == fn.exit and (throws or fn.blocks[b].get('noret')):
                    continue
                out = st
                if s not in IN or not out <= IN[s]:
                    IN[s] = IN.get(s, frozenset()) | out
                    work.append(s)
        x = IN.get(fn.exit, frozenset())
        # null tests are not tracked: only objects that are certainly created here count
        if 'F' in x:
            err('leak', f'{fn.short} can end without giving the object that {self.n} points to to an owner', fn.r.get('l'))


def depth_root(fn, i):
    d = 0
    i = peel(fn, i)
    while True:
        nd = fn.nodes[i]
        if nd['k'] == 'sub':
            d += 1
            i = peel(fn, nd['c'][0])
        elif nd['k'] == 'un' and nd['op'] == '*':
            d += 1
            i = peel(fn, nd['c'][0])
        else:
            break
    nd = fn.nodes[i]
    if nd['k'] == 'mem' and nd.get('c') and fn.nodes[peel(fn, nd['c'][0])]['k'] == 'this':
        return nd['n'], d
    return None, d


def this_callees(P, fn, seen=None):
    seen = set() if seen is None else seen
    if fn.u in seen:
        return seen
    seen.add(fn.u)
    for i, nd in fn.calls():
        if nd['k'] == 'call' and nd.get('recv', -1) >= 0 and fn.nodes[peel(fn, nd['recv'])]['k'] == 'this' and nd.get('u') in P.fns:
            this_callees(P, P.fns[nd['u']], seen)
    return seen


def null_edge(fn, c, truth, fld):
    """The branch on condition c with outcome truth means that fld is null."""
    c, truth = strip_not(fn, c, truth)
    nd = fn.nodes[c]
    if nd['k'] == 'mem' and nd['n'] == fld:
        return not truth
    if nd['k'] == 'bin' and nd['op'] in ('==', '!='):
        ks = [fn.nodes[peel(fn, x)] for x in nd['c']]
        if any(k['k'] == 'mem' and k['n'] == fld for k in ks) and any(k['k'] == 'null' or k['k'] == 'lit' for k in ks):
            return truth == (nd['op'] == '==')
    return False


def deletes(P, fn, fld, d, arr, active=None):
    """'all' when every path of fn deletes fld, 'some' when one does."""
    active = active or set()
    if fn.u in active or fn.entry is None:
        return ''
    hits = set()
    for i, nd in enumerate(fn.nodes):
        if nd['k'] == 'del':
            n, dd = depth_root(fn, nd['c'][0])
            if n == fld and dd == d and bool(nd.get('arr')) == arr:
                hits.add(i)
            # for (auto* p : {_a, _b}) delete p;
            x = fn.nodes[peel(fn, nd['c'][0])]
            if n is None and d == 0 and bool(nd.get('arr')) == arr and x['k'] == 'ref' and 'd' in x:
                for s in stmts(fn.body):
                    if s.get('s') == 'rangefor' and s.get('var') == x['d'] and i in stmt_nodes(fn, s.get('body')):
                        for y in fn.walk(s['range']):
                            if fn.nodes[y]['k'] == 'mem' and fn.nodes[y]['n'] == fld:
                                hits.add(y)
        elif nd['k'] == 'call' and nd.get('recv', -1) >= 0 and fn.nodes[peel(fn, nd['recv'])]['k'] == 'this' and nd.get('u') in P.fns:
            if deletes(P, P.fns[nd['u']], fld, d, arr, active | {fn.u}) == 'all':
                hits.add(i)
    if not hits:
        return ''
    seen, st, ok = set(), [fn.entry], True
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        blk = fn.blocks[b]
        if any(isinstance(e, int) and e in hits for e in blk['el']):
            continue
        if b == fn.exit:
            ok = False
            break
        su = blk['su']
        for k, s in enumerate(su):
            if s < 0:
                continue
            c = blk.get('lc', blk.get('tc'))
            if len(su) == 2 and isinstance(c, int) and c >= 0 and null_edge(fn, c, k == 0, fld):
                continue
            st.append(s)
    return 'all' if ok else 'some'


def permute(P, R, fn, owners, cls):
    """Members that own what they point to are only permuted."""
    ws = [i for i, nd in enumerate(fn.nodes) if nd['k'] == 'mem' and nd['n'] in owners and nd.get('c') and fn.nodes[peel(fn, nd['c'][0])]['k'] == 'this'
          and context(fn, i)[0] in (WRITE, RW)]
    if not ws:
        return
    R.count('functions that move owned objects')
    fields = sorted(owners)
    tok0 = tuple(fields)
    loc = {}

    def val(env, i):
        i = peel(fn, i)
        nd = fn.nodes[i]
        if nd['k'] == 'mem' and nd['n'] in owners:
            return env.get(nd['n'])
        if nd['k'] == 'ref' and 'd' in nd:
            return env.get(nd['d'], '?')
        if nd['k'] == 'null':
            return None
        if nd['k'] == 'new':
            return ('new', i)
        if nd['k'] == 'call' and name(nd) == 'exchange' and len(nd['c']) == 2:
            m = fn.nodes[peel(fn, nd['c'][0])]
            if m.get('n') in owners:
                r = env[m['n']]
                env[m['n']] = val(env, nd['c'][1])
                return r
        return '?'
    start = {f: f for f in fields}
    IN = {fn.entry: {frozenset(start.items())}}
    work = [fn.entry]
    n = 0
    while work and n < 5000:
        n += 1
        b = work.pop()
        outs = set()
        for s0 in IN[b]:
            env = dict(s0)
            for e in fn.blocks[b]['el']:
                if isinstance(e, dict):
                    continue
                nd = fn.nodes[e]
                if nd['k'] == 'decl':
                    for v in nd['vars']:
                        if v['t'].endswith('*') and v['init'] >= 0:
                            env[v['d']] = val(env, v['init'])
                elif nd['k'] == 'bin' and nd.get('asg') and nd['op'] == '=':
                    l = fn.nodes[peel(fn, nd['c'][0])]
                    if l['k'] == 'mem' and l['n'] in owners:
                        env[l['n']] = val(env, nd['c'][1])
                    elif l['k'] == 'ref' and rawptr(l.get('t', '')):
                        env[l['d']] = val(env, nd['c'][1])
                elif nd['k'] == 'call' and name(nd) == 'swap' and len(nd['c']) == 2:
                    a, c = (fn.nodes[peel(fn, x)] for x in nd['c'])
                    ka, kc = a.get('n') if a['k'] == 'mem' else a.get('d'), c.get('n') if c['k'] == 'mem' else c.get('d')
                    if ka in env and kc in env:
                        env[ka], env[kc] = env[kc], env[ka]
                elif nd['k'] == 'del':
                    v = val(env, nd['c'][0])
                    env[('deleted', v)] = True
            outs.add(frozenset(env.items()))
        for s in fn.blocks[b]['su']:
            if s >= 0 and not outs <= IN.get(s, set()):
                IN[s] = IN.get(s, set()) | outs
                work.append(s)
    for s in IN.get(fn.exit, ()):
        env = dict(s)
        now = [env[f] for f in fields]
        gone = [t for t in tok0 if t not in now and not env.get(('deleted', t))]
        twice = [t for t in now if t is not None and t != '?' and now.count(t) > 1]
        stale = [f for f in fields if env.get(('deleted', env[f]))]
        if gone:
            R.violation(f'{fn.short}|lost {gone[0]}', f'{fn.short} can lose the object that {gone[0]} pointed to', fn.loc())
        elif twice:
            R.violation(f'{fn.short}|shared {twice[0]}', f'{fn.short} can leave two members that own the same object', fn.loc())
        elif stale:
            R.violation(f'{fn.short}|stale {stale[0]}', f'{fn.short} leaves {stale[0]} pointing to a deleted object', fn.loc())


def itertype(t):
    return 'iterator' in t or '__begin' in t or '__end' in t


def temp_root(fn, i, borrowed=False):
    """Node of the temporary object that the reference or pointer expression i
    refers into, if any.  borrowed: lifetime extension no longer applies."""
    while True:
        nd = fn.nodes[i]
        k = nd['k']
        if k in ('cast', 'paren') or k == 'init' and len(nd['c']) == 1:
            i = nd['c'][0]
        elif k == 'ctor' and nd.get('cm') and len(nd['c']) == 1 and not borrowed:
            return None
        elif k == 'un' and nd['op'] in ('*', '&'):
            borrowed = True
            i = nd['c'][0]
        elif k == 'mem':
            if not nd.get('c'):
                return None
            if nd.get('arrow'):
                borrowed = True
            i = nd['c'][0]
        elif k == 'call':
            rt = nd.get('rt', nd.get('t', ''))
            if nd.get('op') in ('*', '->', '[]') and nd.get('recv', -1) >= 0:
                borrowed = True
                i = nd['recv']
            elif name(nd) in PEEL_NAMES and nd.get('recv', -1) >= 0 and (rt.endswith('&') or rt.endswith('*')):
                borrowed = True
                i = nd['recv']
            elif rt.endswith('&'):
                if nd.get('recv', -1) >= 0 and nd.get('q', '').startswith('usml::'):
                    borrowed = True
                    i = nd['recv']
                else:
                    return None
            elif rt.endswith('*'):
                return None
            else:
                t = nd.get('t', '')
                return i if borrowed and not itertype(rt) and not itertype(t) and name(nd) not in ('begin', 'end', 'find', 'cbegin', 'cend', 'rbegin') else None
        elif k == 'ctor':
            return i if borrowed and not itertype(nd.get('t', '')) else None
        else:
            return None


def reaches(fn, b, goal):
    seen, st = set(), list(fn.blocks[b]['su'])
    while st:
        x = st.pop()
        if x < 0 or x in seen:
            continue
        if x == goal:
            return True
        seen.add(x)
        st += fn.blocks[x]['su']
    return False


def path_of(fn, i):
    """Access path of a container expression."""
    i = peel(fn, i)
    nd = fn.nodes[i]
    if nd['k'] == 'mem':
        b = path_of(fn, nd['c'][0]) if nd.get('c') else 'this'
        return None if b is None else b + '.' + nd['n']
    if nd['k'] == 'this':
        return 'this'
    if nd['k'] == 'ref' and 'd' in nd:
        v = fn.locals.get(nd['d'])
        if v and v['t'].endswith('&') and v['init'] >= 0:
            return path_of(fn, v['init'])
        return f'#{nd["d"]}'
    if nd['k'] == 'un' and nd['op'] in ('*', '&') or nd['k'] == 'call' and nd.get('op') in ('*', '->') and nd.get('recv', -1) >= 0:
        return path_of(fn, nd['c'][0] if nd['k'] == 'un' else nd['recv'])
    return None


class Mutators:
    """Which members a method changes the size of, calls on this included."""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def of(self, fn):
        if fn.u in self.memo:
            return self.memo[fn.u]
        self.memo[fn.u] = set()
        out = set()
        for i, nd in fn.calls():
            if nd['k'] != 'call' or nd.get('recv', -1) < 0:
                continue
            p = path_of(fn, nd['recv'])
            if p and p.startswith('this.') and (name(nd) in MUTATE or nd.get('op') == '='):
                out.add(p)
            elif p == 'this':
                for g in self.P.targets(nd):
                    out |= self.of(g)
        self.memo[fn.u] = out
        return out


def loops(P, R, fn, mut):
    for s in stmts(fn.body):
        k = s.get('s')
        if k == 'rangefor':
            p = path_of(fn, s['range'])
            R.count('container loops')
            t = temp_root(fn, s['range'])
            if t is not None:
                R.violation(f'{fn.short}|loop over temporary', f'{fn.short} iterates over part of a temporary object', fn.loc(s['range']))
            if not p:
                continue
            body = stmt_nodes(fn, s.get('body'))
            lt = bare(fn.nodes[s['range']].get('t', ''))
            stable = lt.startswith(('std::list', 'std::set', 'std::map', 'std::multimap', 'std::multiset'))
            for i in body:
                nd = fn.nodes[i]
                if nd['k'] != 'call' or nd.get('recv', -1) < 0:
                    continue
                q = path_of(fn, nd['recv'])
                bad = q == p and (name(nd) in MUTATE and not (stable and name(nd) in SAFE_LISTS) or nd.get('op') == '=')
                if not bad and q == 'this' and p.startswith('this.'):
                    bad = any(p in mut.of(g) for g in P.targets(nd))
                if bad:
                    blk = next((b for b, x in fn.blocks.items() if i in x['el']), None)
                    head = next((b for b, x in fn.blocks.items() if x.get('tk') == 'CXXForRangeStmt' and x.get('tl') == s.get('l')), None)
                    if blk is None or head is None or reaches(fn, blk, head):
                        R.violation(f'{fn.short}|changed in loop {p}', f'{fn.short} changes the container it iterates over', fn.loc(i))
    # iterators after erase
    ev = {}
    for i, nd in fn.calls():
        if nd['k'] == 'call' and name(nd) == 'erase' and nd.get('recv', -1) >= 0 and nd.get('c'):
            a = fn.nodes[peel(fn, nd['c'][0])]
            if a['k'] == 'ref' and 'd' in a and itertype(a.get('t', '')):
                ev[i] = a['d']
    if not ev:
        return
    R.count('erased iterators', len(ev))
    uses = defaultdict(list)
    for i, nd in enumerate(fn.nodes):
        if nd['k'] == 'ref' and nd.get('d') in ev.values():
            c, at, _ = context(fn, i)
            if c == WRITE:
                uses[at].append(('w', nd['d']))
            elif c != 'none' or True:
                uses[i].append(('r', nd['d']))
        elif nd['k'] == 'decl':
            for v in nd['vars']:
                if v['d'] in ev.values():
                    uses[i].append(('w', v['d']))
    IN = {fn.entry: frozenset()}
    work = [fn.entry]
    while work:
        b = work.pop()
        st = IN[b]
        for e in fn.blocks[b]['el']:
            if isinstance(e, dict):
                continue
            for k, d in uses.get(e, ()):
                if k == 'r' and d in st:
                    R.violation(f'{fn.short}|erased iterator', f'{fn.short} uses an iterator whose element has been erased', fn.loc(e))
                elif k == 'w':
                    st = st - {d}
            if e in ev:
                st = st | {ev[e]}
        for s in fn.blocks[b]['su']:
            if s >= 0 and not (s in IN and st <= IN[s]):
                IN[s] = IN.get(s, frozenset()) | st
                work.append(s)


def run(P):
    R = Result()
    R.rule = RULE
    mut = Mutators(P)
    owners = defaultdict(dict)        # class -> member -> (depth, arr)
    for fn in P.fns.values():
        locs = set()
        for i, nd in enumerate(fn.nodes):
            if nd['k'] == 'new':
                R.count('objects created')
                j = i
                # climb through casts
                while fn.parents.get(j) and fn.nodes[fn.parents[j][0]]['k'] in ('cast', 'paren', 'init', 'cond') :
                    j = fn.parents[j][0]
                ps = fn.parents.get(j, [])
                ok = False
                for p in ps:
                    pn = fn.nodes[p]
                    if ptr_arg(fn, p) is not None:
                        sub = (pn.get('t', '') if pn['k'] == 'ctor' else fn.nodes[pn['recv']].get('t', ''))
                        if bool(nd.get('arr')) != ('[]>' in sub):
                            R.violation(f'{fn.short}|form {nd["ty"]}', f'{fn.short} releases {"an array" if nd.get("arr") else "an object"} of {nd["ty"]} with the wrong form of delete', fn.loc(i))
                        ok = True
                    elif pn['k'] == 'decl':
                        v = next(v for v in pn['vars'] if v['init'] == j or j in fn.walk(v['init']))
                        locs.add((v['d'], v['n']))
                        ok = True
                    elif pn['k'] == 'bin' and pn.get('asg'):
                        l = fn.nodes[peel(fn, pn['c'][0])]
                        m, d = depth_root(fn, pn['c'][0])
                        if l['k'] == 'ref' and 'd' in l:
                            locs.add((l['d'], l['n']))
                            ok = True
                        elif m is not None and fn.cls in P.classes:
                            o = P.field_owner(fn.cls, m)
                            owners[o][(m, d)] = (bool(nd.get('arr')), fn, i)
                            ok = True
                            if fn.kind != 'ctor' and not any(fn.u in this_callees(P, g) for g in P.fns.values() if g.cls == fn.cls and g.kind == 'ctor'):
                                # replaced outside of construction: judged by permute()
                                pass
                    elif pn['k'] == 'ret':
                        ok = True
                for ini in fn.inits:
                    if ini.get('n', -1) >= 0 and 'f' in ini and peel(fn, ini['n']) == i:
                        owners[fn.cls][(ini['f'], 0)] = (bool(nd.get('arr')), fn, i)
                        ok = True
                if not ok:
                    R.violation(f'{fn.short}|unowned {nd["ty"]}', f'{fn.short} creates {nd["ty"]} without giving it to an owner', fn.loc(i))
            a = ptr_arg(fn, i)
            if a is not None:
                R.count('adoptions')
                an = fn.nodes[a]
                bad = None
                if an['k'] == 'this':
                    bad = 'this'
                elif an['k'] == 'un' and an['op'] == '&':
                    bad = 'the address of an object'
                elif an['k'] == 'call' and name(an) == 'get' and an.get('recv', -1) >= 0 and smart(fn.nodes[an['recv']].get('t', '')):
                    bad = 'a pointer that another smart pointer owns'
                elif an['k'] == 'mem':
                    bad = 'a member'
                elif an['k'] == 'ref' and an.get('vk') == 'local':
                    v = fn.locals.get(an['d'])
                    if v and v['init'] >= 0:
                        s = fn.nodes[peel(fn, v['init'])]
                        if s['k'] == 'call' and name(s) == 'get' or s['k'] == 'this':
                            if not reassigned(fn, an['d']):
                                bad = 'a pointer that another owner has'
                if bad:
                    R.violation(f'{fn.short}|adopts {bad}', f'{fn.short} makes a smart pointer own {bad}', fn.loc(i))
                # deleted through a base class
                t = bare(an.get('t', ''))
                t = bare(t[:-1]) if t.endswith('*') else t
                if t in P.classes and P.derived.get(t) and not P.classes[t].r.get('vdtor') and an['k'] != 'new':
                    R.violation(f'{t}|virtual', f'{t} is deleted through a base class pointer and its destructor is not virtual', fn.loc(i))
            if nd['k'] == 'del':
                R.count('delete expressions')
                t = nd.get('dt', '')
                if t in P.classes and P.derived.get(t) and not P.classes[t].r.get('vdtor') and not nd.get('arr'):
                    R.violation(f'{t}|virtual', f'{t} is deleted through a base class pointer and its destructor is not virtual', fn.loc(i))
        for i, nd in enumerate(fn.nodes):
            # std::unique_ptr<Base> always deletes through Base
            pass
        if fn.entry is not None:
            for d, n in locs:
                Owner(P, R, fn, d, n).run()
            loops(P, R, fn, mut)
        refs(P, R, fn)
    for cls, ms in owners.items():
        c = P.classes[cls]
        dt = next((f for f in P.fns.values() if f.cls == cls and f.kind == 'dtor'), None)
        for (m, d), (arr, fn, i) in ms.items():
            R.count('members that own objects')
            got = deletes(P, dt, m, d, arr) if dt else ''
            if not got or got == 'some' and d == 0:
                R.violation(f'{strip_tpl(cls)}|{m} {d}', f'the destructor of {cls} does not delete what {m} points to' + (' on every path' if got else ''), fn.loc(i))
        for mth in c.methods:
            pass
        cops = copy_ops(P, c)
        if cops:
            R.violation(f'{strip_tpl(cls)}|copy', f'{cls} deletes what its members point to but can be copied', f'{c.r["file"]}:{c.r["l"]}')
        own = {m for (m, d) in ms if d == 0}
        for f in P.fns.values():
            if f.cls == cls and f.kind == 'method' and f.entry is not None:
                permute(P, R, f, own, cls)
    # members deleted in destructors although they were created elsewhere
    members(P, R)
    R.need(R.counts.get('objects created', 0), 30, 'objects created with new')
    R.need(R.counts.get('members that own objects', 0), 5, 'owning members')
    R.need(R.counts.get('container loops', 0), 30, 'loops over containers')
    return R


def copy_ops(P, c):
    """Copy operations of class c that are usable."""
    ms = [m for m in c.methods if m['kind'] == 'ctor' and m.get('cm') == 1 or m['n'] == 'operator=']
    live = [m for m in ms if not m.get('del')]
    declared = [m for m in ms]
    if any(m.get('del') for m in ms) and not live:
        return []
    if not declared:
        # nothing declared: implicit unless a member or base cannot be copied
        for f in c.fields.values():
            if f['t'].startswith(('std::unique_ptr', 'std::atomic', 'std::mutex', 'std::thread')) or 'mutex' in f['t']:
                return []
        return ['implicit'] if not any(copyless(P, b) for b in c.bases) else []
    return [m for m in live if m.get('dflt') or m.get('impl')] 


def copyless(P, b):
    c = P.classes.get(b)
    return bool(c) and any(m.get('del') and (m['n'] == 'operator=' or m['kind'] == 'ctor') for m in c.methods)


def refs(P, R, fn):
    rt = fn.r.get('rt', '')
    for i, nd in enumerate(fn.nodes):
        if nd['k'] == 'ret' and nd.get('c') and (rt.endswith('&') or rt.endswith('*')):
            R.count('returned references and pointers')
            x = peel(fn, nd['c'][0])
            amp = False
            while True:
                xn = fn.nodes[x]
                if xn['k'] == 'un' and xn['op'] == '&':
                    amp = True
                    x = peel(fn, xn['c'][0])
                elif xn['k'] == 'mem' and xn.get('c') and not xn.get('arrow'):
                    x = peel(fn, xn['c'][0])
                    amp = amp or rt.endswith('&')
                elif xn['k'] == 'call' and xn.get('recv', -1) >= 0 and name(xn) in PEEL_NAMES | {'begin'} and not rawptr(fn.nodes[xn['recv']].get('t', '')) and not (smart(fn.nodes[xn['recv']].get('t', ''))):
                    amp = True
                    x = peel(fn, xn['recv'])
                elif xn['k'] == 'call' and xn.get('op') in ('[]', '()') and xn.get('recv', -1) >= 0 and xn.get('rt', '').endswith('&'):
                    amp = True
                    x = peel(fn, xn['recv'])
                else:
                    break
            xn = fn.nodes[x]
            if xn['k'] == 'ref' and xn.get('vk') in ('local', 'param') and 'd' in xn:
                v = fn.locals.get(xn['d'])
                t = v['t'] if v else next((p['t'] for p in fn.params if p['d'] == xn['d']), '')
                if (amp or rt.endswith('&')) and not t.endswith('&') and not (v and v.get('static')) and not rawptr(t):
                    R.violation(f'{fn.short}|returns local', f'{fn.short} returns a reference to its local {xn["n"]}', fn.loc(i))
            tr = temp_root(fn, nd['c'][0], borrowed=rt.endswith('&'))
            if tr is not None and fn.nodes[tr]['k'] in ('call', 'ctor'):
                R.violation(f'{fn.short}|returns temporary', f'{fn.short} returns a reference into a temporary object', fn.loc(i))
        elif nd['k'] == 'decl':
            for v in nd['vars']:
                if v['init'] >= 0 and (v['t'].endswith('&') or v['t'].endswith('*')) and not v['n'].startswith('__'):
                    R.count('reference and pointer variables')
                    tr = temp_root(fn, v['init'])
                    if tr is not None:
                        R.violation(f'{fn.short}|{v["n"]} dangles', f'{fn.short}: {v["n"]} refers into a temporary object that no longer exists', fn.loc(i))


def members(P, R):
    for fn in P.fns.values():
        if fn.kind != 'ctor' or fn.cls not in P.classes:
            continue
        c = P.classes[fn.cls]
        for ini in fn.inits:
            n = ini.get('f')
            if n not in c.fields or ini.get('n', -1) < 0:
                continue
            kd = c.fields[n]['kd']
            if kd == 'ref':
                R.count('reference members')
                x = fn.nodes[peel(fn, ini['n'])]
                if x['k'] == 'ref' and x.get('vk') == 'param':
                    t = next((p['t'] for p in fn.params if p['d'] == x['d']), '')
                    if not t.endswith('&') or t.startswith('const ') and not t.endswith('*&'):
                        R.violation(f'{strip_tpl(fn.cls)}|{n} refers to argument', f'{fn.cls}::{n} refers to a constructor argument that may be a temporary', fn.loc(ini['n']))
                elif x['k'] in ('call', 'ctor') and not x.get('rt', '&').endswith('&') or x['k'] == 'ctor':
                    R.violation(f'{strip_tpl(fn.cls)}|{n} refers to temporary', f'{fn.cls}::{n} refers to a temporary', fn.loc(ini['n']))
            elif kd == 'ptr':
                R.count('pointer members')
                x = fn.nodes[peel(fn, ini['n'])]
                if x['k'] == 'un' and x['op'] == '&':
                    y = fn.nodes[peel(fn, x['c'][0])]
                    if y['k'] == 'ref' and y.get('vk') in ('param', 'local'):
                        t = next((p['t'] for p in fn.params if p['d'] == y['d']), '')
                        if not t.endswith('&') or t.startswith('const '):
                            R.violation(f'{strip_tpl(fn.cls)}|{n} points to argument', f'{fn.cls}::{n} points to a constructor argument that may be a temporary', fn.loc(ini['n']))
                elif x['k'] == 'call' and name(x) in ('get', 'c_str', 'data') and x.get('recv', -1) >= 0:
                    y = fn.nodes[peel(fn, x['recv'])]
                    if y['k'] in ('call', 'ctor') and not itertype(y.get('t', '')):
                        R.violation(f'{strip_tpl(fn.cls)}|{n} points into temporary', f'{fn.cls}::{n} points into a temporary', fn.loc(ini['n']))


if __name__ == '__main__':
    R = run(Prog())
    print(dict(R.counts))
    for k, (m, l) in R.violations.items():
        print(l, m, k)
