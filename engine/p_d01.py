"""D01: files say what was computed."""
import ast, os
import facts
from prog import strip_tpl
from cfgutil import *
from symterm import Sym, walk, offset, root, contains
from roles import split
from result import Result

RULE = ('symbolic values of every NetCDF access on every path: each variable defined in a file is written on every path and in every iteration, '
        'in the record of that iteration, with the member it is named after; readers ask for names that exist, store them where they belong and undo the conversion')

IGNORE = {'pos', 'position', 'curr', 'current', 'orient', 'orientation', 'data', 'begin', 'key', 'get', 'const'}
OPTIONAL = {'travel', 'target'}
ALIAS = {'src': 'source', 'rcv': 'receiver', 'ids': 'id', 'times': 'time', 'lat': 'latitude', 'lng': 'longitude', 'alt': 'altitude', 'freq': 'frequencies', 'frequency': 'frequencies'}
RECORDS = ('eigenray_model', 'eigenverb_model', 'biverb_model', 'wave_front')
CONV = {'to_degrees', 'to_radians', 'log10', 'pow', 'max', 'min', 'abs', 'fabs'}


def toks(n):
    return {ALIAS.get(t, t) for t in split(n)}


def uses_netcdf(f):
    return any(nd['k'] in ('call', 'ctor') and nd.get('q', '').startswith('netCDF::') or 'netCDF::Nc' in nd.get('t', '') for nd in f.nodes)


class File:
    """Everything one root function does with NetCDF."""

    def __init__(self, P, fn, users):
        self.P, self.fn = P, fn
        self.puts, self.gets, self.adds, self.stores, self.calls = [], [], [], [], []
        self.sym = Sym(P, fn, inline=lambda g: g.u in users or 'lambda' in g.kind or g.r.get('lambdaOf'), hook=self.hook, onstore=self.onstore)
        self.simplify()

    def hook(self, s, i, nd):
        q = nd.get('q', '')
        n = name(nd)
        if q.startswith('netCDF::NcVar::putVar') or q.startswith('netCDF::NcVar::getVar'):
            args = nd['c']
            idx = [self.snap(s, a) for a in args[:-1]]
            last = args[-1] if args else -1
            v = s.v(last)
            val = s.load(v[1], s.st) if v[0] == '&' else v
            ev = (s, i, s.v(nd['recv']), idx, val)
            (self.puts if 'putVar' in q else self.gets).append(ev)
        elif n == 'addVar' and q.startswith('netCDF::'):
            self.adds.append((s, i, ('call', n) + (s.v(nd['recv']),) + tuple(s.v(x) for x in nd['c'])))
        elif nd.get('recv', -1) >= 0 and nd.get('u') in self.P.fns:
            self.calls.append((s, i, n, s.v(nd['recv']), [s.v(x) for x in nd['c']]))

    def snap(self, s, a):
        """First elements of an index vector as terms."""
        l = s.lv(a)
        v = s.v(a)
        out = []
        for k in range(4):
            e = s.load(('idx', l, (('num', k),)), s.st)
            out.append(s.load(('idx', v, (('num', k),)), s.st) if e[0] == 'idx' and v[0] == 'vec' else e)
        n = len(v) - 1 if v[0] == 'vec' else None
        return (n, out, v)

    def onstore(self, s, l, v):
        if l[0] in ('mem', 'idx'):
            self.stores.append((s, s.cur, l, v))

    def nested(self, s=None):
        s = s or self.sym
        yield s
        for x in s.nested.values():
            yield from self.nested(x)

    # -------------------------------------------------------------- covered
    def covered(self, s, hit, start=None):
        """Every path through s.fn (from node `start`) passes an event."""
        f = s.fn
        ev = set()
        for i in hit.get(id(s), ()):
            ev.add(s.block_of(i))
        for i, x in s.nested.items():
            if self.any(x, hit) and self.covered(x, hit):
                ev.add(s.block_of(i))
        heads = set()
        for h in sorted(s.heads, key=lambda h: len(s.heads[h])):
            body = s.heads[h]
            if not any(b in body for b in ev) and not any(x in body for x in heads):
                continue
            seen, st, ok = {h}, [x for x in f.blocks[h]['su'] if x in body], True
            while st:
                b = st.pop()
                if b == h:
                    ok = h in ev
                    break
                if b in seen or b in ev or b in heads:
                    continue
                seen.add(b)
                st += [x for x in f.blocks[b]['su'] if x in body]
            if ok:
                heads.add(h)
        b0 = s.block_of(start) if start is not None else f.entry
        if b0 in ev:
            return True
        seen, st = set(), [b0]
        while st:
            b = st.pop()
            if b in seen or b < 0 or b in ev or b in heads:
                continue
            seen.add(b)
            if b == f.exit:
                return False
            blk = f.blocks[b]
            if any(isinstance(e, int) and f.nodes[e]['k'] == 'throw' for e in blk['el']):
                continue
            st += [x for x in blk['su'] if x >= 0]
        return True

    def any(self, s, hit):
        return bool(hit.get(id(s))) or any(self.any(x, hit) for x in s.nested.values())

    def outer(self, s, i):
        """Node of the root function through which node i of s is reached."""
        return s.tag[0] if s.tag else i

    def loops(self, s, i):
        """(sym, head) of all loops around node i, innermost first."""
        out = []
        chain = []
        x = self.sym
        for t in s.tag:
            chain.append((x, t))
            x = x.nested.get(t)
            if x is None:
                return out
        chain.append((s, i))
        for x, t in reversed(chain):
            out += [(x, h) for h in x.enclosing(x.block_of(t))]
        return out

    def phis(self):
        out = {}
        for s in self.nested():
            out.update(s.phi)
        return out

    def simplify(self):
        """Unknowns of loops that do not change are replaced by their value."""
        phis = self.phis()
        self.sub = sub = {}

        def norm(t, seen=()):
            if t in sub:
                return sub[t]
            if t[0] == 'phi':
                if t in seen or t not in phis:
                    return t
                ops = {norm(o, seen + (t,)) for o in phis[t].values()} - {t}
                if len(ops) == 1:
                    o = next(iter(ops))
                    if not contains(o, t):
                        if not seen:
                            sub[t] = o
                        return o
                return t
            if t[0] in ('num', 'str', 'loc', 'sym', 'out', 'glob', 'this', 'ver', 'lambda'):
                return t
            r = tuple(norm(c, seen) if isinstance(c, tuple) and c and isinstance(c[0], str) else tuple(norm(y, seen) if isinstance(y, tuple) and y else y for y in c) if isinstance(c, tuple) and c and isinstance(c[0], tuple) else c for c in t)
            if r[0] == 'idx' and r[1][0] == 'vec' and len(r[2]) == 1 and r[2][0][0] == 'num' and r[2][0][1] < len(r[1]) - 1:
                return r[1][1 + r[2][0][1]]
            if r[0] == 'idx' and r[1][0] == 'phi' and r[1] in phis and len(r[2]) == 1 and r[2][0][0] == 'num':
                es = {o[1 + r[2][0][1]] if o[0] == 'vec' and len(o) > 1 + r[2][0][1] else None for o in phis[r[1]].values() if o != r[1]}
                if len(es) == 1 and None not in es:
                    return es.pop()
            if r[0] == 'add':
                b, k = offset(r[1])
                return ('add', b, k + r[2]) if b[0] != 'num' else ('num', b[1] + k + r[2])
            return r
        self.norm = norm
        ev = lambda l: [(s, i, norm(h), [(n, [norm(e) for e in es], norm(v)) for n, es, v in idx], norm(val)) for s, i, h, idx, val in l]
        self.puts, self.gets = ev(self.puts), ev(self.gets)
        self.adds = [(s, i, norm(t)) for s, i, t in self.adds]
        self.stores = [(s, i, norm(l), norm(v)) for s, i, l, v in self.stores]
        self.calls = [(s, i, n, norm(r), [norm(a) for a in args]) for s, i, n, r, args in self.calls]


def path_of(t):
    """Names along a member / accessor chain, conversions removed."""
    convs = []
    while True:
        if t[0] == 'add':
            return None, convs
        if t[0] == 'new' and len(t) == 3 and isinstance(t[2], tuple) and t[2] and t[2][0] in ('op', 'call', 'mem'):
            t = t[2]
            continue
        if t[0] == 'call' and t[1] in CONV:
            if t[1] in ('max', 'min'):
                convs.append((t[1],))
                t = t[2]
                continue
            if t[1] == 'pow':
                e = t[3]
                k = 1
                if e[0] == 'op' and e[1] == '/' and e[3][0] == 'num':
                    k = e[3][1]
                    e = e[2]
                convs.append(('pow', t[2][1] if t[2][0] == 'num' else None, k))
                t = e
                continue
            convs.append((t[1],))
            t = t[2]
            continue
        if t[0] == 'op' and t[1] == 'neg':
            convs.append(('neg',))
            t = t[2]
            continue
        if t[0] == 'op' and t[1] in ('*', '/', '-') and len(t) == 4:
            if t[2][0] == 'num':
                convs.append((t[1], t[2][1]))
                t = t[3]
                continue
            if t[3][0] == 'num':
                convs.append((t[1], t[3][1]))
                t = t[2]
                continue
            return None, convs
        break
    names = []
    while True:
        if t[0] == 'mem':
            names.append(t[2])
            t = t[1]
        elif t[0] == 'call' and len(t) == 3:
            names.append(t[1])
            t = t[2]
        elif t[0] in ('idx', '&'):
            t = t[1]
        elif t[0] == 'new' and len(t) == 3 and t[1] and t[2][0] in ('mem', 'call', 'new'):
            t = t[2]
        else:
            break
    return (names[::-1], t) if names else None, convs


def matches(var, names):
    n = toks(var)
    p = set()
    for x in names:
        p |= toks(x)
    strong = p - IGNORE
    if not strong:
        return False
    return (strong - OPTIONAL <= n) and bool(strong & n) and (n - strong) <= OPTIONAL


def wrong(var, names, allvars):
    """The member chain belongs to another variable of the file."""
    if matches(var, names):
        return None
    o = [v for v in allvars if v != var and matches(v, names)]
    if o:
        return f'which is {o[0]}'
    names = [n for n in names if n not in ('data', 'begin', 'size', 'get')]
    if names and not (toks(var) & set().union(*[toks(x) for x in names])) and len(names) == 1 and names[0][:1] != '_':
        return 'which has another meaning'
    return None


def dims_of(t):
    if len(t) < 6:
        d = t[5] if len(t) > 5 else None
    d = t[5] if len(t) > 5 else None
    if d is None:
        return []
    if d[0] == 'vec':
        return list(d[1:])
    if d[0] == 'call' and d[1] == 'addDim':
        return [d]
    return None


def var_name(t):
    return t[3][1] if t[0] == 'call' and t[1] == 'addVar' and len(t) > 3 and t[3][0] == 'str' else None


def get_name(t):
    """Literal name of the variable behind a handle obtained from a file."""
    return t[3][1] if t[0] == 'call' and t[1] == 'getVar' and len(t) > 3 and t[3][0] == 'str' else None


def depends(t, s, h, phis, seen=None):
    seen = set() if seen is None else seen
    for x in walk(t):
        if x[0] == 'phi' and x in phis and x not in seen:
            seen.add(x)
            if x[1] == s.tag + (h,):
                return True
            if any(depends(o, s, h, phis, seen) for o in phis[x].values()):
                return True
    return False


def run(P):
    R = Result()
    R.rule = RULE
    users = {f.u for f in P.fns.values() if uses_netcdf(f)}
    more = True
    while more:                       # lambdas and helpers between them
        more = False
        for f in list(P.fns.values()):
            if f.u not in users and any(nd['k'] == 'lambda' and nd['u'] in users for nd in f.nodes):
                users.add(f.u)
                more = True
    roots = [f for f in P.fns.values() if f.u in users and f.entry is not None and not f.r.get('lambdaOf')
             and (not any('netCDF::Nc' in p['t'] for p in f.params) or not P.callers.get(f.u))]
    roots += [f for f in P.fns.values() if f.entry is not None and f.u not in users
              and any(nd['k'] == 'call' and nd.get('u') in users and any('netCDF::Nc' in p['t'] for p in P.fns[nd['u']].params) for nd in f.nodes)]
    files = [File(P, f, users) for f in sorted(roots, key=lambda f: f.q)]
    inner = {s.fn.u for x in files for s in x.nested() if s is not x.sym}
    files = [x for x in files if x.fn.u not in inner]
    members = {}                      # (class, location) -> addVar term
    written = {}                      # class -> {name: (term, conversions)}
    for x in files:
        st = x.sym.ins.get(x.fn.exit, {})
        for l, v in st.items():
            v = x.norm(v)
            if l[0] == 'mem' and l[1] == ('this',) and v[0] == 'call' and v[1] == 'addVar':
                members[(x.fn.cls, l)] = v
    for x in files:
        writer(P, R, x, members, written)
    unwritten(R, files, members)
    for x in files:
        reader(P, R, x, written)
        grid(P, R, x)
    python(R, written)
    R.need(R.counts.get('variables written', 0), 60, 'variables written to files')
    R.need(R.counts.get('variables read', 0), 12, 'variables read back')
    return R


def handle(x, t, members):
    if var_name(t) is not None:
        return t
    if t[0] == 'mem':
        return members.get((x.fn.cls, t[:3]))
    return None


def writer(P, R, x, members, written):
    fn = x.fn
    defined = {}
    for s, i, t in x.adds:
        if var_name(t):
            defined[t] = (s, i)
    if not defined and not x.puts:
        return
    R.count('functions that write files')
    names = {var_name(t) for t in defined} | {var_name(t) for (c, l), t in members.items() if c == fn.cls}
    phis = x.phis()
    lost = False
    hits, slots = {}, {}
    for s, i, ht, idx, val in x.puts:
        t = handle(x, ht, members)
        if t is None:
            lost = True
            continue
        n = var_name(t)
        R.count('variables written')
        hits.setdefault(t, {}).setdefault(id(s), set()).add(i)
        x.hits = hits
        # value
        p, conv = path_of(val)
        written.setdefault(fn.cls, {}).setdefault(n, (t, conv, fn))
        if p:
            w = wrong(n, p[0], names)
            if w:
                R.violation(f'value|{fn.n}|{fn.cls}|{n}', f'{fn.short} writes {".".join(p[0])}, {w}, into the file variable {n}', s.fn.loc(i))
            R.sample(f'{fn.short}: {n} <- {".".join(p[0])}')
        # slot
        ds = dims_of(t)
        lp = x.loops(s, i)
        if ds is None:
            continue
        if not idx:
            if lp and ds and not depends(val, *lp[0], phis) is True and not any(depends(ht, ls, h, phis) for ls, h in lp):
                R.violation(f'whole|{fn.n}|{n}', f'{fn.short} writes the whole variable {n} again in every iteration', s.fn.loc(i))
            continue
        ln, el, _ = idx[0]
        if ln is not None and ln < len(ds):
            R.violation(f'rank|{fn.n}|{n}', f'{fn.short} writes {n} with an index of {ln} elements, it has {len(ds)} dimensions', s.fn.loc(i))
        el = el[:len(ds)]
        for k, (ls, h) in enumerate(lp):
            R.count('record slots')
            dep = [e for e in el if depends(e, ls, h, phis)]
            if not dep and all(e[0] in ('num', 'phi', 'add', 'mem') for e in el):
                R.violation(f'slot|{fn.n}|{n}', f'{fn.short} writes {n} into the same record in every iteration', s.fn.loc(i))
            for e in dep:
                step(R, x, phis, ls, h, e, fn, n, s.fn.loc(i))
        if len(idx) > 1:
            counts(R, fn, n, ds, idx[1], s.fn.loc(i))
        key = (lp[0][0].tag, lp[0][1]) if lp else ()
        if ds and el and el[0][0] in ('phi', 'add', 'mem'):
            d0 = ds[0][3] if len(ds[0]) > 3 else None
            slots.setdefault((key, d0), {}).setdefault(el[0], []).append((n, s.fn.loc(i)))
        if not lp and el and offset(el[0])[0][0] == 'mem':
            c = offset(el[0])[0]
            end = x.sym.load(c[:3], x.sym.ins.get(fn.exit, {}))
            R.count('record slots')
            if end == c:
                R.violation(f'advance|{fn.n}|{c[2]}', f'{fn.short} leaves the record number {c[2]} as it is: the next call overwrites the record', s.fn.loc(i))
            elif offset(end)[0] == c and offset(end)[1] != 1:
                R.violation(f'advance|{fn.n}|{c[2]}', f'{fn.short} advances the record number {c[2]} by {offset(end)[1]}', s.fn.loc(i))
            elif el[0] != c:
                R.violation(f'advance|{fn.n}|{c[2]}', f'{fn.short} writes {n} into record {c[2]}{offset(el[0])[1]:+d}', s.fn.loc(i))
    for (key, d), by in slots.items():
        if len(by) > 1:
            main = max(by.values(), key=len)
            for e, l in by.items():
                if l is not main:
                    R.violation(f'record|{fn.n}|{l[0][0]}', f'{fn.short} writes {l[0][0]} into another record than {main[0][0]}', l[0][1])
    same = {}
    for s, i, ht, idx, val in x.puts:
        t = handle(x, ht, members)
        if t is not None and idx and val[0] in ('phi', 'add'):
            same.setdefault((s.tag, val, tuple(idx[0][1])), {}).setdefault(var_name(t), s.fn.loc(i))
    for (tag, val, el), by in same.items():
        if len(by) > 1:
            a, b = sorted(by)[:2]
            R.violation(f'same|{fn.n}|{a}|{b}', f'{fn.short} writes the same count as {a} and as {b}', by[a])
    x.hits = hits
    if lost:
        R.count('writes through unknown handles')
        return
    for t, (s, i) in defined.items():
        n = var_name(t)
        if any(m == t for (c, l), m in members.items() if c == fn.cls):
            continue
        R.count('variables defined')
        h = hits.get(t)
        if not h:
            R.violation(f'empty|{fn.n}|{fn.cls}|{n}', f'{fn.short} defines the file variable {n} and never writes it', s.fn.loc(i))
        elif not x.covered(x.sym, h, x.outer(s, i)):
            R.violation(f'path|{fn.n}|{fn.cls}|{n}', f'{fn.short} does not write {n} on every path or for every record', s.fn.loc(i))


def step(R, x, phis, ls, h, e, fn, n, loc):
    def leaves(v, seen):
        """Values a merge of paths can have, as (base, increment)."""
        base, k = offset(v)
        if base[0] == 'phi' and base not in seen and base[1] != ls.tag + (h,) and base in phis:
            for o in phis[base].values():
                for b2, k2 in leaves(o, seen | {base}):
                    yield b2, k2 + k
        elif base[0] != 'phi' or base not in seen:
            yield base, k
    def reach(t, seen):
        for y in walk(t):
            if y[0] == 'phi' and y in phis and y not in seen:
                seen.add(y)
                for o in phis[y].values():
                    reach(o, seen)
        return seen
    for p in [t for t in reach(e, set()) if t[1] == ls.tag + (h,)]:
        for (b, hh) in ls.back:
            if hh != h or b not in phis.get(p, {}):
                continue
            whole = offset(phis[p][b])[0] != p
            for base, k in leaves(phis[p][b], frozenset()):
                if base == p and k != 1 and not whole:
                    R.violation(f'step|{fn.n}|{n}', f'{fn.short} advances the record of {n} by {k} per iteration', loc)
                elif base[0] == 'num':
                    R.violation(f'step|{fn.n}|{n}', f'{fn.short} sets the record of {n} back in every iteration', loc)


def counts(R, fn, n, ds, cnt, loc):
    ln, el, v = cnt
    sizes = [d[4] if len(d) > 4 else None for d in ds]
    for k in range(1, min(len(ds), 4)):
        c = el[k]
        if c[0] == 'idx' or sizes[k] is None:
            continue
        R.count('extents')
        if c == sizes[k]:
            continue
        if c[0] == 'num' or any(c == z for j, z in enumerate(sizes) if j != k and z is not None):
            R.violation(f'extent|{fn.n}|{n}', f'{fn.short} writes {n} with an extent that is not that of its dimension {k}', loc)


def unwritten(R, files, members):
    """Variables whose handles are kept in members."""
    for (c, l), t in sorted(members.items(), key=lambda x: (x[0][0], x[0][1][2])):
        n = var_name(t)
        R.count('variables defined')
        xs = [x for x in files if x.fn.cls == c and t in getattr(x, 'hits', {})]
        if not xs:
            R.violation(f'empty|{c}|{n}', f'{strip_tpl(c)} defines the file variable {n} and never writes it', '')
        for x in xs:
            if not x.covered(x.sym, x.hits[t]):
                R.violation(f'path|{x.fn.n}|{c}|{n}', f'{x.fn.short} does not write {n} on every path', x.fn.loc())


def reader(P, R, x, written):
    fn = x.fn
    w = written.get(fn.cls)
    if not w or not x.gets:
        return
    outs = {}
    hits = {}
    phis = x.phis()
    slots = {}
    for s, i, ht, idx, val in x.gets:
        n = get_name(ht)
        if n is None:
            continue
        R.count('variables read')
        nd = s.fn.nodes[i]
        outs[('out', s.tag + (i,), len(nd['c']) - 1)] = (n, s, i)
        hits.setdefault(n, {}).setdefault(id(s), set()).add(i)
        if n not in w:
            R.violation(f'unknown|{fn.n}|{n}', f'{fn.short} reads {n}, which is not in the files this library writes', s.fn.loc(i))
        lp = x.loops(s, i)
        if idx and lp:
            el = idx[0][1]
            R.count('record slots')
            if el[0][0] in ('num', 'phi', 'add', 'mem') and not depends(el[0], *lp[0], phis):
                R.violation(f'rslot|{fn.n}|{n}', f'{fn.short} reads {n} from the same record in every iteration', s.fn.loc(i))
            if el[0][0] in ('phi', 'add'):
                slots.setdefault(el[0], []).append((n, s.fn.loc(i)))
    if len(slots) > 1:
        main = max(slots.values(), key=len)
        for e, l in slots.items():
            if l is not main:
                R.violation(f'rrecord|{fn.n}|{l[0][0]}', f'{fn.short} reads {l[0][0]} from another record than {main[0][0]}', l[0][1])
    if not hits:
        return
    stored = {}

    def sink(s, i, names, v):
        for o in {t for t in walk(v) if t in outs}:
            n = outs[o][0]
            stored.setdefault(n, []).append(names)
            bad = wrong(n, names, w)
            if bad:
                R.violation(f'target|{fn.n}|{n}', f'{fn.short} stores the file variable {n} in {".".join(names)}, {bad}', s.fn.loc(i))
            _, conv = path_of(strip_out(v, o))
            if n in w and not inverse(w[n][1], conv):
                R.violation(f'inverse|{fn.n}|{n}', f'{fn.short} does not undo the conversion with which {n} was written', s.fn.loc(i))
            R.count('values restored')
    for s, i, l, v in x.stores:
        names, t = [], l
        while t[0] in ('mem', 'idx'):
            if t[0] == 'mem':
                names.append(t[2])
            t = t[1]
        if names:
            sink(s, i, names[::-1], v)
    for s, i, n, recv, args in x.calls:
        names, t = [n], recv
        while t[0] in ('mem', 'idx', '&'):
            if t[0] == 'mem':
                names.append(t[2])
            t = t[1]
        for a in args:
            if len(names) > 1 or contains(a, recv) is False and n in w:
                sink(s, i, names[::-1], a)
    for n, (t, conv, wf) in w.items():
        if n not in hits:
            R.violation(f'missing|{fn.n}|{n}', f'{fn.short} never reads {n}, which {wf.short} writes', fn.loc())
        elif n not in stored:
            R.violation(f'dropped|{fn.n}|{n}', f'{fn.short} reads {n} but does not store it', fn.loc())
        elif not x.covered(x.sym, hits[n]):
            R.violation(f'rpath|{fn.n}|{n}', f'{fn.short} does not read {n} for every record', fn.loc())


def strip_out(v, o):
    """The value with the quantity read replaced by a member chain."""
    if v == o:
        return ('mem', ('this',), 'file')
    return tuple(strip_out(c, o) if isinstance(c, tuple) and c else c for c in v)


def inverse(wc, rc):
    wc = [c for c in wc if c[0] not in ('max', 'min')]
    rc = [c for c in rc if c[0] not in ('max', 'min')]
    f = lambda cs: sorted(str(c) for c in cs)
    def norm(cs, back):
        out = []
        k = None
        lg = any(c[0] == 'log10' for c in cs)
        for c in cs:
            if c[0] in ('to_degrees', 'to_radians'):
                out.append({'to_degrees': 'to_radians', 'to_radians': 'to_degrees'}[c[0]] if back else c[0])
            elif c[0] == 'neg':
                out.append('neg')
            elif c[0] == 'log10':
                pass
            elif c[0] == '*' and lg:
                k = c[1]
            elif c[0] == 'pow':
                out.append(('db', float(c[2])))
            else:
                out.append((c[0], float(c[1])) if not back else ({'*': '/', '/': '*', '-': '+'}[c[0]], float(c[1])))
        if lg:
            out.append(('db', float(k or 1)))
        return sorted(map(str, out))
    return norm(wc, True) == norm(rc, False)


def grid(P, R, x):
    """Gridded input: index k of the variable belongs to coordinate k."""
    if not x.gets:
        return
    phis = x.phis()
    outs = {}
    for s, i, ht, idx, val in x.gets:
        nd = s.fn.nodes[i]
        outs[('out', s.tag + (i,), len(nd['c']) - 1)] = ht

    def coords(t, seen=None):
        seen = set() if seen is None else seen
        out = set()
        if t in seen:
            return out
        seen.add(t)
        if t[0] == 'phi':
            for o in phis.get(t, {}).values():
                out |= coords(o, seen)
            return out
        if t in outs:
            return coords(outs[t], seen)
        if t[0] == 'call' and t[1] == 'getVar' and len(t) > 3:
            d = [y for y in walk(t[3]) if y[0] == 'call' and y[1] == 'getDim' and len(y) > 3]
            d = d or [y for z in walk(t[3]) if z in phis for o in phis[z].values() for y in walk(o) if y[0] == 'call' and y[1] == 'getDim' and len(y) > 3]
            return {y[3] for y in d}
        for c in t:
            if isinstance(c, tuple) and c:
                out |= coords(c, seen)
        return out

    n = 0
    for s, i, ht, idx, val in x.gets:
        if len(idx) < 2:
            continue
        for what, v in (('starts', idx[0]), ('extends', idx[1])):
            ln = v[0]
            for k, e in enumerate(v[1][:ln if ln else 4]):
                if ln is None and e[0] == 'idx':
                    continue
                c = coords(e)
                if not c:
                    continue
                R.count('grid indices')
                if c != {('num', k)}:
                    R.violation(f'grid|{x.fn.cls}|{what}{k}', f'{x.fn.short} {what} dimension {k} of the grid at a value that belongs to dimension {sorted(y[1] for y in c)}', s.fn.loc(i))
    axes = []
    for s, i, l, v in x.stores:
        if l[0] == 'idx' and l[1][0] == 'mem' and l[1][2] == '_axis' and len(l[2]) == 1:
            c = coords(v)
            if not c:
                continue
            R.count('grid axes')
            if len(c) > 1:
                R.violation(f'axis|{x.fn.cls}|{l[2][0]}', f'{x.fn.short} builds one axis from several coordinates', s.fn.loc(i))
                continue
            c = next(iter(c))
            if c[0] == 'num' and l[2][0][0] == 'num':
                axes.append((l[2][0][1], c[1], s.fn.loc(i)))
            elif c != l[2][0] and (c[0] in ('phi', 'add', 'op') and l[2][0][0] in ('phi', 'add') or 'num' in (c[0], l[2][0][0])):
                R.violation(f'axis|{x.fn.cls}|order', f'{x.fn.short} builds an axis from the coordinate of another dimension', s.fn.loc(i))
    axes = sorted(set(axes))
    for (a, b, _), (c, d, loc) in zip(axes, axes[1:]):
        if a != c and d - b != c - a:
            R.violation(f'axis|{x.fn.cls}|order', f'{x.fn.short} builds axis {c} from coordinate {d} although axis {a} is coordinate {b}', loc)


# ------------------------------------------------------------------ python
def python(R, written):
    rays = next((w for c, w in written.items() if c and c.endswith('eigenray_collection')), {})
    base = os.path.join(facts.REPO, 'python/src/usml')
    fields = set()
    trees = {}
    for fname in ('netcdf.py', 'eigenrays.py'):
        p = os.path.join(base, fname)
        if os.path.exists(p):
            with open(p) as f:
                trees[fname] = ast.parse(f.read())
    for t in trees.values():
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef) and c.name == 'Eigenrays':
                fields = {y.id for x in c.body if isinstance(x, (ast.Assign, ast.AnnAssign)) for y in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(y, ast.Name)}
    for fname, t in trees.items():
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef) and c.name == 'EigenrayList':
                pyreader(R, fname, c, rays, fields)
            elif isinstance(c, ast.FunctionDef) and fname == 'eigenrays.py':
                pycopies(R, fname, c, fields)


def variable(n):
    """X of an expression built from ....variables["X"]."""
    out = []
    for y in ast.walk(n):
        if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Attribute) and y.value.attr == 'variables' and isinstance(y.slice, ast.Constant) and isinstance(y.slice.value, str):
            out.append(y.slice.value)
    return out


def pyreader(R, fname, c, rays, fields):
    loc = lambda y: f'python/src/usml/{fname}:{y.lineno}'
    for y in ast.walk(c):
        if isinstance(y, ast.Subscript) and variable(y) and isinstance(y.value, ast.Attribute):
            v = variable(y)[0]
            R.count('variables read by Python')
            if rays and v not in rays:
                R.violation(f'py|unknown|{v}', f'the Python reader asks for {v}, which eigenray files do not have', loc(y))
        if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Attribute):
            v = variable(y.value)
            a = y.targets[0].attr
            if len(v) == 1 and a != v[0] and v[0] in rays and (a in fields or a in rays):
                R.violation(f'py|{a}', f'the Python reader stores {v[0]} as {a}', loc(y))


def pycopies(R, fname, c, fields):
    loc = lambda y: f'python/src/usml/{fname}:{y.lineno}'
    env = {}
    for y in ast.walk(c):
        if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name):
            env.setdefault(y.targets[0].id, []).append(y.value)

    def attrs(n, depth=0):
        out = set()
        for z in ast.walk(n):
            if isinstance(z, ast.Attribute) and z.attr in fields:
                out.add(z.attr)
            elif isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load) and len(env.get(z.id, [])) == 1 and depth < 3:
                out |= attrs(env[z.id][0], depth + 1)
        return out
    for y in ast.walk(c):
        tgt = val = None
        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'append' and isinstance(y.func.value, ast.Attribute) and y.args:
            tgt, val = y.func.value.attr, y.args[0]
        elif isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Attribute):
            tgt, val = y.targets[0].attr, y.value
        if tgt in fields and val is not None:
            a = attrs(val)
            if len(a) == 1:
                R.count('columns copied by Python')
                if tgt not in a:
                    R.violation(f'py|{c.name}|{tgt}', f'{c.name} stores {a.pop()} as {tgt}', loc(y))
