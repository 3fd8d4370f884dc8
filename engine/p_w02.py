"""W02: published results describe one path completely."""
import re
from prog import Prog, strip_tpl
from assign import Definite, context, READ, WRITE, ELEM
from cfgutil import *
from result import Result, Broken

RULE = ('definite assignment of every member of each result record on every path before it is handed to a listener, collection or caller, '
        'and provenance of the members that are copied: counts and losses come from one wavefront and one ray, members of the source half from one contribution and '
        'members of the receiver half from the other, and each from the member of the same meaning')

MODELS = ('eigenray_model', 'eigenverb_model', 'biverb_model')
KINDS = ('surface', 'bottom', 'caustic', 'upper', 'lower', 'phase', 'intensity', 'power', 'travel_time', 'frequencies', 'de_index', 'az_index', 'grazing', 'sound_speed',
         'direction', 'length', 'width', 'position', 'duration')
POSITION = ({'latitude', 'theta'}, {'longitude', 'phi'}, {'altitude', 'rho'})


def model_of(t):
    for m in MODELS:
        if re.search(r'\b' + m + r'\b', t) and 'list<' not in t and 'map<' not in t and 'matrix<' not in t and 'vector<' not in t:
            return m
    return None


class Records:
    """Records created by a function and the names that denote them."""

    def __init__(self, P, f, makers=()):
        self.P, self.f, self.makers = P, f, makers
        self.groups = []             # (model, decl node, {local ids}, kind)
        self.of = {}
        f_loc = f.locals
        for d, v in f_loc.items():
            if v.get('param') or v.get('init', -1) < 0:
                m = model_of(v['t'])
                if not v.get('param') and v.get('init', -1) < 0:
                    if m and 'ptr' not in v['t'] and not v['t'].endswith(('*', '&')):
                        self.new(m, v, d, 'new')
                elif m and 'ptr<const' not in v['t'] and (not v['t'].startswith('const ') or 'ptr<' in v['t']) and (v['t'].endswith(('*', '&')) or 'ptr<' in v['t']):
                    self.new(m, v, d, 'argument')
                continue
            m = model_of(v['t'])
            if not m:
                continue
            k = self.creation(v['init'], m)
            if k == 'value' and ('ptr<' in v['t'] or v['t'].endswith(('*', '&'))):
                k = None
            if k:
                self.new(m, v, d, k if k != 'value' else 'new')
        # names for the same record
        change = True
        while change:
            change = False
            for d, v in f_loc.items():
                if d in self.of or v.get('param') or v.get('init', -1) < 0 or not model_of(v['t']):
                    continue
                r = self.root(v['init'])
                if r in self.of:
                    self.of[d] = self.of[r]
                    self.groups[self.of[d]][2].add(d)
                    change = True

    def new(self, m, v, d, kind):
        self.of[d] = len(self.groups)
        self.groups.append((m, v, {d}, kind))

    def creation(self, i, m):
        """'new' for an empty record, 'copy' for a copy of another one."""
        f = self.f
        nd = f.nodes[i]
        while nd['k'] in ('cast',) or nd['k'] in ('init', 'ctor') and len(nd.get('c', [])) == 1 and 'ptr' in nd.get('q', nd.get('t', '')):
            i = nd['c'][0]
            nd = f.nodes[i]
        if nd['k'] == 'call' and name(nd) in ('make_shared', 'make_unique'):
            return 'copy' if nd.get('c') else 'new'
        if nd['k'] == 'call' and nd.get('u') in self.P.fns and nd['u'] in self.makers:
            return ('made', nd['u'])
        if nd['k'] == 'new':
            ini = nd.get('ini', -1)
            if isinstance(ini, int) and ini >= 0 and any(f.nodes[x]['k'] in ('ref', 'mem') for x in f.walk(ini)):
                return 'copy'
            return 'new'
        if nd['k'] == 'ctor' and strip_tpl(nd.get('q', '')).endswith(m):
            if nd.get('cm'):
                return 'copy'
            return 'value'
        return None

    def root(self, i):
        f = self.f
        for _ in range(12):
            nd = f.nodes[i]
            if nd['k'] == 'ref' and nd.get('vk') in ('local', 'param'):
                return nd['d']
            if nd['k'] in ('cast', 'init', 'ctor') and len(nd.get('c', [])) == 1 or nd['k'] == 'un' and nd['op'] in ('*', '&'):
                i = nd['c'][0]
            elif nd['k'] == 'call' and nd.get('recv', -1) >= 0 and (nd.get('op') in ('->', '*') or name(nd) == 'get'):
                i = nd['recv']
            elif nd['k'] == 'call' and name(nd) in ('move', 'forward', 'const_pointer_cast') and nd.get('c'):
                i = nd['c'][0]
            else:
                return None
        return None


def run(P):
    R = Result()
    R.rule = RULE
    known = {m: P.cls_by_name(m) for m in MODELS}
    for m, c in known.items():
        if c is None:
            raise Broken(f'record {m} not found')
    nrec = 0
    models = {c.name for c in known.values()}
    # functions that make a record for their callers inside the library
    makers = {}
    for _ in range(3):
        for f in P.fns.values():
            if f.entry is None or f.cls in models or not model_of(f.r.get('rt', '')) or not P.callers.get(f.u):
                continue
            rec = Records(P, f, makers)
            for g, (m, v, ids, kind) in enumerate(rec.groups):
                rets = [p for p, i in publications(f, ids).items() if f.nodes[p]['k'] == 'ret']
                if rets and kind != 'argument':
                    st = states(P, f, rec, g, known[m], kind, makers)
                    got = [set(x for x in st[p]) for p in rets if p in st]
                    if got:
                        makers[f.u] = frozenset(set.intersection(*got))
    for f in sorted(P.fns.values(), key=lambda f: f.q):
        if f.entry is None or f.cls in models:
            continue
        rec = Records(P, f, makers)
        for g, (m, v, ids, kind) in enumerate(rec.groups):
            c = known[m]
            if kind != 'argument':
                nrec += 1
                R.count('records created')
                R.sample(f'{f.short}: {m} {v["n"]} ({kind if isinstance(kind, str) else "made by a helper"})')
                if kind != 'copy':
                    complete(P, R, f, rec, g, m, v, ids, c, kind, makers)
            meaning(P, R, f, rec, g, m, ids, c)
        # totals: references to records kept in a member
        for d, v in f.locals.items():
            if not v.get('param') and v['t'].endswith('&') and not v['t'].startswith('const ') and model_of(v['t']) and v.get('init', -1) >= 0:
                nrec += 1
                R.count('records refilled')
                refilled(P, R, f, d, v, known[model_of(v['t'])])
    R.need(nrec, 5, 'records created')
    return R


def publications(f, ids):
    pubs = {}
    for i, nd in enumerate(f.nodes):
        if nd['k'] == 'ref' and nd.get('d') in ids:
            p = published(f, i, ids)
            if p is not None:
                pubs[p] = i
    return pubs


def root_test(rec, g):
    ps = {p['d'] for p in rec.f.params}

    def isroot(fn, i):
        r = rec.root(i)
        return r is not None and rec.of.get(r) == g
    return isroot


def helper_sets(P, f, call, arg, known_fields, makers, depth=0):
    """Members that the called function certainly sets through its argument,
    or None when it does not fill the record."""
    nd = f.nodes[call]
    out = None
    if depth > 4:
        return None
    for h in P.targets(nd):
        if h.entry is None:
            return None
        k = next((k for k, c in enumerate(nd['c']) if arg in set(f.walk(c))), None)
        if k is None or k >= len(h.params):
            return None
        rec = Records(P, h, makers)
        g = rec.of.get(h.params[k]['d'])
        if g is None:
            return None
        writes = any(x['k'] == 'mem' and x['n'] in known_fields and rec.of.get(rec.root(x['c'][0])) == g and context(h, i)[0] in (WRITE, ELEM)
                     for i, x in enumerate(h.nodes))
        if not writes:
            return None
        st = states(P, h, rec, g, None, 'argument', makers, known_fields, depth + 1)
        s = st.get('exit', frozenset())
        out = s if out is None else out & s
    return out


def states(P, f, rec, g, c, kind, makers, fields=None, depth=0):
    """Members certainly set at each place where the record leaves f, and at the exit."""
    fields = set(c.fields) if fields is None else set(fields)
    m, v, ids, _ = rec.groups[g]
    pubs = publications(f, ids)
    fills = {}
    for p, i in list(pubs.items()):
        if f.nodes[p]['k'] == 'call':
            s = helper_sets(P, f, p, i, fields, makers, depth)
            if s is not None:
                fills[p] = s
                del pubs[p]
    D = Definite(P, fields, root_test(rec, g))
    D.watch = lambda fn, e: e in pubs
    prep = D.prepare

    def prepare(fn):
        eff, elems = prep(fn)
        for p, s in fills.items():
            for x in s:
                eff[p].append(('s', x[1], x[2]) if isinstance(x, tuple) else ('w', x, None))
        return eff, elems
    D.prepare = prepare
    init = frozenset(makers.get(kind[1], ())) if isinstance(kind, tuple) else frozenset()
    ex = D.run(f, init)
    out = {p: D.points[(f.u, p)] for p in pubs if (f.u, p) in D.points}
    out['exit'] = ex
    return out


def complete(P, R, f, rec, g, m, v, ids, c, kind, makers):
    st = states(P, f, rec, g, c, kind, makers)
    pubs = [p for p in st if p != 'exit']
    for p in pubs:
        if f.nodes[p]['k'] == 'ret' and f.u in makers:
            continue                      # judged where the callers publish it
        R.count('publications')
        for n in sorted(c.fields):
            R.count('members at publications')
            if n in st[p]:
                continue
            sets = {s[2] for s in st[p] if isinstance(s, tuple) and s[0] == 'set' and s[1] == n}
            if c.fields[n]['t'].endswith('wposition1') and all(alt & sets for alt in POSITION):
                continue
            R.violation(f'{m}|{n}|{f.n}', f'{f.short} can publish an {m} whose {n} was never set', f.loc(p))


def published(f, i, ids):
    """Node at which the record denoted by reference i leaves the function."""
    x = i
    for _ in range(12):
        ps = f.parents.get(x, [])
        if not ps:
            return None
        p = ps[0]
        nd = f.nodes[p]
        if nd['k'] in ('cast', 'init', 'ctor') or nd['k'] == 'un' and nd['op'] in ('*', '&'):
            x = p
            continue
        if nd['k'] == 'decl':
            return None
        if nd['k'] == 'ret':
            return p
        if nd['k'] == 'call':
            if nd.get('recv', -1) == x:
                if name(nd) == 'get' or nd.get('op') == '*':
                    x = p
                    continue
                if name(nd) in ('reset', 'swap') or nd.get('op') in ('->', '*', '=', '==', '!=') or name(nd).startswith('operator') or name(nd) == 'get':
                    return None
                return None
            if nd.get('op') in ('==', '!=', '<', '=', '<<'):
                return None
            if x in nd.get('c', []):
                if name(nd) in ('move', 'forward', 'make_pair', 'pair', 'const_pointer_cast'):
                    x = p
                    continue
                return p
        return None
    return None


# ------------------------------------------------------------ provenance

def tokens(n):
    return set(re.split(r'[^a-z0-9]+', n.lower())) - {''}


def kind_of(n):
    n = n.lstrip('_').lower()
    for k in KINDS:
        if n == k or n.endswith('_' + k):
            return k
    return None


def side_of(n):
    t = tokens(n)
    if t & {'source', 'src'}:
        return 'source'
    if t & {'receiver', 'rcv', 'rec', 'target', 'tgt'}:
        return 'receiver'
    return None


def angle_of(n):
    t = tokens(n)
    if 'de' in t and 'az' not in t:
        return 'de'
    if 'az' in t and 'de' not in t:
        return 'az'
    return None


PASS = ('to_radians', 'to_degrees', 'abs', 'fabs', 'int', 'move')


def origin(f, i, depth=0):
    """(base node or None, name, index nodes) of a value that is copied unchanged."""
    nd = f.nodes[i]
    while nd['k'] in ('cast',) or nd['k'] in ('init', 'ctor') and len(nd.get('c', [])) == 1 or nd['k'] == 'un' and nd['op'] in ('*', '-', '+'):
        i = nd['c'][0]
        nd = f.nodes[i]
    if nd['k'] == 'call' and name(nd) in PASS and len(nd.get('c', [])) == 1 and nd.get('recv', -1) < 0:
        return origin(f, nd['c'][0], depth + 1)
    if nd['k'] == 'call' and nd.get('op') in ('()', '[]') and nd.get('recv', -1) >= 0:
        o = origin(f, nd['recv'], depth + 1)
        return (o[0], o[1], list(nd['c'])) if o else None
    if nd['k'] == 'sub':
        o = origin(f, nd['c'][0], depth + 1)
        return (o[0], o[1], [nd['c'][1]]) if o else None
    if nd['k'] == 'call' and nd.get('op') in ('->', '*') and nd.get('recv', -1) >= 0:
        return origin(f, nd['recv'], depth + 1)
    if nd['k'] == 'mem':
        return (nd['c'][0], nd['n'], [])
    if nd['k'] == 'ref':
        if nd.get('vk') == 'local' and depth < 6:
            v = f.locals.get(nd['d'])
            if v and v.get('init', -1) >= 0 and not reassigned(f, nd['d']):
                o = origin(f, v['init'], depth + 1)
                if o:
                    return o
        return (None, nd['n'], [])
    if nd['k'] == 'call' and nd.get('recv', -1) >= 0 and 'op' not in nd and 'u' in nd:
        return (nd['recv'], name(nd), list(nd['c']))
    return None


def base_name(f, b, depth=0):
    """Stable identity of the object a value is taken from."""
    nd = f.nodes[b]
    while nd['k'] == 'cast' or nd['k'] == 'un' and nd['op'] in ('*', '&') or nd['k'] == 'call' and nd.get('recv', -1) >= 0 and (nd.get('op') in ('->', '*') or name(nd) == 'get'):
        b = nd['recv'] if nd.get('recv', -1) >= 0 else nd['c'][0]
        nd = f.nodes[b]
    if nd['k'] == 'ref' and nd.get('vk') == 'local' and depth < 5:
        v = f.locals.get(nd['d'])
        if v and v.get('init', -1) >= 0 and not reassigned(f, nd['d']):
            return base_name(f, v['init'], depth + 1)
        return ('l', nd['d'], nd['n'])
    if nd['k'] == 'ref':
        return ('p', nd.get('d'), nd['n'])
    if nd['k'] == 'mem':
        return ('m', nd['n'], nd['n'])
    if nd['k'] == 'this':
        return ('this', '', '')
    if nd['k'] == 'call' and nd.get('recv', -1) >= 0 and not nd['c']:
        g = f.prog.fns.get(nd.get('u'))
        r = returned_field(f.prog, g) if g is not None else None
        return ('m', r[1], r[1]) if r else ('c', name(nd), name(nd))
    return ('?', b, '')


def meaning(P, R, f, rec, g, m, ids, c):
    groups = {}
    for i, nd in enumerate(f.nodes):
        if nd['k'] != 'mem' or nd['n'] not in c.fields:
            continue
        r = rec.root(nd['c'][0])
        if r is None or rec.of.get(r) != g:
            continue
        k, at, val = context(f, i)
        if k != WRITE or val is None:
            continue
        R.count('members copied or computed')
        o = origin(f, val)
        lhs = nd['n']
        if o is None:
            continue
        b, n, idx = o
        same(R, f, m, lhs, n, val)
        if b is None or m == 'eigenray_model' and f.nodes[b]['k'] == 'this' and False:
            continue
        # per-ray quantities of a wavefront
        if len(idx) == 2:
            bn = base_name(f, b)
            groups.setdefault('wave', []).append((lhs, bn, tuple(ident(f, x) for x in idx), i))
        elif m == 'biverb_model':
            bn = base_name(f, b)
            side = side_of(lhs)
            if side:
                groups.setdefault(side, []).append((lhs, bn, (), i))
    for side in ('wave', 'source', 'receiver'):
        es = groups.get(side, [])
        R.count('provenance groups', 1 if es else 0)
        firsts = {}
        for lhs, bn, idx, i in es:
            firsts.setdefault((bn[:2], idx), []).append((lhs, i))
        if len(firsts) > 1:
            common = max(firsts.values(), key=len)
            for key, xs in firsts.items():
                if xs is not common:
                    for lhs, i in xs:
                        R.violation(f'{m}|origin {lhs}|{f.n}', f'{f.short} takes {lhs} from another {"ray, index order or instant" if side == "wave" else "contribution"} than the other members of the {m}', f.loc(i))
    if m == 'biverb_model':
        s = {bn[:2] for _, bn, _, _ in groups.get('source', [])}
        r = {bn[:2] for _, bn, _, _ in groups.get('receiver', [])}
        for x in s & r:
            R.violation(f'{m}|halves|{f.n}', f'{f.short} fills both halves of the {m} from the same contribution', f.loc())
        for side, es in (('source', groups.get('source', [])), ('receiver', groups.get('receiver', []))):
            for lhs, bn, _, i in es[:1]:
                p = param_role(P, f, bn)
                if p and p != side:
                    R.violation(f'{m}|{side} half|{f.n}', f'{f.short} fills the {side} half of the {m} from the {p} contribution', f.loc(i))


def param_role(P, f, bn):
    """Side of the parameter a half is filled from, from its name or from the arguments it is called with."""
    if bn[0] != 'p':
        return None
    s = side_of(bn[2])
    roles = set()
    for k, p in enumerate(f.params):
        if p['d'] == bn[1]:
            for g, i in P.callers.get(f.u, ()):
                nd = g.nodes[i]
                if k < len(nd.get('c', [])):
                    x = nd['c'][k]
                    r = arg_side(g, x)
                    if r:
                        roles.add(r)
    if len(roles) == 1:
        return roles.pop()
    return s


def arg_side(g, x, depth=0):
    """Side of the collection an argument was taken from."""
    if depth > 6:
        return None
    from cfgutil import stmts
    for y in g.walk(x):
        nd = g.nodes[y]
        if nd['k'] == 'ref' and nd.get('vk') == 'local':
            for s in stmts(g.body):
                if s.get('s') == 'rangefor' and s.get('var') == nd['d']:
                    rng = s['range']
                    sides = collection_side(g, rng)
                    if sides:
                        return sides
            v = g.locals.get(nd['d'])
            if v and v.get('init', -1) >= 0:
                r = arg_side(g, v['init'], depth + 1)
                if r:
                    return r
        if nd['k'] == 'mem':
            r = side_of(nd['n'])
            if r:
                return r
    return None


def collection_side(g, i, depth=0):
    """Receiver of the call that returns the range (its object, not its arguments)."""
    if depth > 6:
        return None
    nd = g.nodes[i]
    while nd['k'] in ('cast', 'ctor', 'init') and len(nd.get('c', [])) == 1:
        i = nd['c'][0]
        nd = g.nodes[i]
    if nd['k'] == 'call' and nd.get('recv', -1) >= 0:
        return collection_side(g, nd['recv'], depth + 1)
    if nd['k'] == 'mem':
        return side_of(nd['n'])
    if nd['k'] == 'un' and nd['op'] in ('*', '&'):
        return collection_side(g, nd['c'][0], depth + 1)
    if nd['k'] == 'ref':
        v = g.locals.get(nd.get('d'))
        if v and v.get('init', -1) >= 0:
            r = collection_side(g, v['init'], depth + 1)
            if r:
                return r
        return side_of(nd['n'])
    return None


def ident(f, x):
    nd = f.nodes[x]
    while nd['k'] == 'cast':
        x = nd['c'][0]
        nd = f.nodes[x]
    return ('d', nd['d']) if nd['k'] == 'ref' and 'd' in nd else ('t', f.text(x))


def same(R, f, m, lhs, n, at):
    R.count('meanings compared')
    a, b = kind_of(lhs), kind_of(n)
    if a and b and a != b:
        R.violation(f'{m}|{lhs}|{f.n} meaning', f'{f.short} sets {lhs} from {n}', f.loc(at))
        return
    x, y = angle_of(lhs), angle_of(n)
    if x and y and x != y:
        R.violation(f'{m}|{lhs}|{f.n} meaning', f'{f.short} sets {lhs} from {n}', f.loc(at))


def refilled(P, R, f, d, v, c):
    """All members of a total are recomputed from members of the same meaning."""
    got = {}
    for i, nd in enumerate(f.nodes):
        if nd['k'] == 'mem' and nd['n'] in c.fields:
            b = f.nodes[nd['c'][0]]
            if b['k'] == 'ref' and b.get('d') == d:
                k, at, val = context(f, i)
                if k in (WRITE, ELEM):
                    got.setdefault(nd['n'], []).append((at, val))
                    if val is not None:
                        o = origin_vars(f, val)
                        for n in o:
                            same(R, f, strip_tpl(c.name).split('::')[-1], nd['n'], n, at)
    if len(got) < 3:
        return
    for n in sorted(set(c.fields) - set(got)):
        if n == 'frequencies':
            continue
        R.violation(f'total|{n}|{f.n}', f'{f.short} refills a record but leaves {n} as it was', f.loc(v['node']))


def origin_vars(f, val):
    """Members that a simple local was copied from (through plain assignments)."""
    nd = f.nodes[val]
    while nd['k'] == 'cast':
        nd = f.nodes[nd['c'][0]]
    out = set()
    if nd['k'] == 'ref' and nd.get('vk') == 'local':
        for x in f.nodes:
            if x['k'] == 'bin' and x.get('asg') and x['op'] == '=':
                l = f.nodes[x['c'][0]]
                if l['k'] == 'ref' and l.get('d') == nd['d']:
                    o = origin(f, x['c'][1])
                    if o and o[0] is not None:
                        out.add(o[1])
    return out
